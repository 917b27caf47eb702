//! Makes a failing plan smaller while it keeps failing in the same way.
use crate::{check, plan::*, pool};
use std::time::{Duration, Instant};

fn calm(s: &Sched) -> Sched {
    Sched { p: [0.0, 0.0, 0.0, 0.0, 0.05, 0.1, 0.1], pct_depth: 0, p_stall: 0.0, ..s.clone() }
}
/// size of a plan: smaller is better
pub fn weight(p: &Plan) -> u64 {
    let mut w = 0u64;
    for ph in &p.phases {
        w += 50
            + 20 * (ph.faults.len() + ph.timed.len() + ph.tamper.len()) as u64
            + (ph.settle > 0) as u64
            + ph.probe as u64
            + ph.arm_end as u64
            + ph.arm_boot as u64;
        for c in &ph.clients {
            w += 15 + (c.delay > 0) as u64 + 10 * c.ops.len() as u64;
        }
    }
    w += p.sched.p.iter().filter(|x| **x > 0.0).count() as u64;
    w += (p.sched.pct_depth + (p.sched.p_stall > 0.0) as u32) as u64;
    w += (p.net.p_frag > 0.0) as u64 + (p.net.cut > 0.0) as u64 + (p.net.delay > 1000) as u64 + (p.net.cap < 65536) as u64;
    w += (p.boot.tls > 0) as u64 + (p.boot.p_slow > 0.0) as u64 + (p.boot.p_short > 0.0) as u64 + (p.boot.workers > 0) as u64;
    w
}
fn edit(p: &Plan, f: impl FnOnce(&mut Plan)) -> Plan {
    let mut q = p.clone();
    f(&mut q);
    q
}
fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.phases.len() {
        if p.phases.len() > 1 {
            v.push(edit(p, |q| {
                q.phases.remove(i);
            }));
        }
    }
    for i in 0..p.phases.len() {
        for j in 0..p.phases[i].clients.len() {
            v.push(edit(p, |q| {
                q.phases[i].clients.remove(j);
            }));
        }
    }
    for i in 0..p.phases.len() {
        for j in 0..p.phases[i].clients.len() {
            let n = p.phases[i].clients[j].ops.len();
            let mut len = n / 2;
            while len >= 1 {
                let mut at = 0;
                while at < n {
                    let e = (at + len).min(n);
                    v.push(edit(p, |q| {
                        q.phases[i].clients[j].ops.drain(at..e);
                    }));
                    at += len;
                }
                len /= 2;
            }
        }
    }
    for i in 0..p.phases.len() {
        let ph = &p.phases[i];
        for j in 0..ph.faults.len() {
            v.push(edit(p, |q| {
                q.phases[i].faults.remove(j);
            }));
        }
        for j in 0..ph.timed.len() {
            v.push(edit(p, |q| {
                q.phases[i].timed.remove(j);
            }));
        }
        for j in 0..ph.tamper.len() {
            v.push(edit(p, |q| {
                q.phases[i].tamper.remove(j);
            }));
        }
        if !ph.v1.is_empty() {
            v.push(edit(p, |q| q.phases[i].v1.clear()));
        }
        if ph.settle > 0 {
            v.push(edit(p, |q| q.phases[i].settle = 0));
        }
        if ph.probe {
            v.push(edit(p, |q| q.phases[i].probe = false));
        }
        if ph.arm_end {
            v.push(edit(p, |q| q.phases[i].arm_end = false));
        }
        if ph.arm_boot {
            v.push(edit(p, |q| q.phases[i].arm_boot = false));
        }
        for j in 0..ph.clients.len() {
            if ph.clients[j].delay > 0 {
                v.push(edit(p, |q| q.phases[i].clients[j].delay = 0));
            }
        }
    }
    v.push(edit(p, |q| q.sched = calm(&q.sched)));
    for i in 0..p.sched.p.len() {
        v.push(edit(p, |q| q.sched.p[i] = 0.0));
    }
    v.push(edit(p, |q| q.sched.pct_depth = 0));
    v.push(edit(p, |q| q.sched.p_stall = 0.0));
    v.push(edit(p, |q| {
        q.net.p_frag = 0.0;
        q.net.cut = 0.0;
    }));
    v.push(edit(p, |q| q.net.delay = 1000));
    v.push(edit(p, |q| q.net.cap = 65536));
    v.push(edit(p, |q| q.boot.tls = 0));
    v.push(edit(p, |q| q.boot.p_slow = 0.0));
    v.push(edit(p, |q| q.boot.p_short = 0.0));
    v.push(edit(p, |q| q.boot.workers = 0));
    let w = weight(p);
    v.retain(|q| weight(q) < w);
    v
}
fn fails(p: &Plan, class: &str) -> bool {
    let o = pool::run(p, false, Duration::from_secs(20));
    let (v, _) = check::judge(&o);
    v.iter().any(|v| v.class == class)
}
/// returns the smaller plan and how many runs it took
pub fn minimise(p: &Plan, class: &str, limit: Duration) -> (Plan, u64) {
    let t = Instant::now();
    let mut best = p.clone();
    let mut runs = 0;
    'outer: while t.elapsed() < limit {
        let c = candidates(&best);
        let mut i = 0;
        while i < c.len() {
            if t.elapsed() > limit {
                break 'outer;
            }
            let chunk = &c[i..(i + 8).min(c.len())];
            // each with its own schedule seed, and with another one
            let ok: Vec<Option<Plan>> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .map(|q| {
                        s.spawn(move || {
                            if fails(q, class) {
                                return Some(q.clone());
                            }
                            let q = edit(q, |q| q.sched.seed = q.sched.seed.wrapping_add(1));
                            fails(&q, class).then_some(q)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
            });
            runs += 2 * chunk.len() as u64;
            if let Some(q) = ok.into_iter().flatten().min_by_key(weight) {
                best = q;
                continue 'outer;
            }
            i += 8;
        }
        break;
    }
    (best, runs)
}
