use crate::{exec::*, gen, plan::*, pool};
use std::{sync::Mutex, time::Duration};
pub const LIMIT: Duration = Duration::from_secs(60);

/// what a run showed: violations, or an error of the harness
pub fn judge(o: &pool::Out) -> (Vec<Viol>, Option<String>) {
    match o {
        pool::Out::Ok(r) => (r.viols.clone(), r.harness.clone()),
        pool::Out::Timeout => (
            vec![Viol { class: "hang".into(), detail: "the server made no progress in 60 s of real time".into() }],
            None,
        ),
        pool::Out::Crash(s) if s.starts_with("signal 11") || s.starts_with("signal 6") || s.starts_with("signal 7") || s.starts_with("signal 4") || s.starts_with("signal 8") => {
            (vec![Viol { class: "memory".into(), detail: format!("the process died: {s}") }], None)
        }
        pool::Out::Crash(s) => (vec![], Some(s.clone())),
    }
}
pub fn show_run(p: &Plan, verbose: bool) -> i32 {
    let o = pool::run(p, verbose, Duration::from_secs(600));
    if let pool::Out::Ok(r) = &o {
        for l in &r.log {
            println!("{l}");
        }
        let mut r = r.clone();
        r.log.clear();
        println!("{}", serde_json::to_string_pretty(&r).unwrap());
    }
    let (v, h) = judge(&o);
    for v in &v {
        println!("VIOLATION {}: {}", v.class, v.detail);
    }
    if let Some(h) = h {
        println!("HARNESS: {h}");
    }
    pool::cleanup();
    (!v.is_empty()) as i32
}
/// exit 1 if the recorded violation is there again
pub fn replay(p: &Plan, verbose: bool) -> i32 {
    let c = show_run(p, verbose);
    let Some(x) = &p.expect else { return c };
    let o = pool::run(p, false, Duration::from_secs(600));
    let (v, _) = judge(&o);
    let hash = match &o {
        pool::Out::Ok(r) => r.trace_hash,
        _ => 0,
    };
    pool::cleanup();
    match v.iter().find(|v| v.class == x.class) {
        Some(v) => {
            println!(
                "REPRODUCED property={} class={} identical_trace={} identical_detail={}",
                x.property,
                x.class,
                hash == x.trace_hash,
                v.detail == x.detail
            );
            1
        }
        None => {
            println!("NOT REPRODUCED property={} class={}", x.property, x.class);
            0
        }
    }
}
pub fn soak(profile: &str, n: u64, seed0: u64, _min: bool) -> i32 {
    struct S {
        next: u64,
        bad: Vec<(u64, String, String)>,
        harness: Vec<(u64, String)>,
        steps: u64,
        ops: u64,
        ok: u64,
        marks: std::collections::BTreeMap<String, u64>,
        max_ms: f64,
    }
    let st = Mutex::new(S { next: seed0, bad: vec![], harness: vec![], steps: 0, ops: 0, ok: 0, marks: Default::default(), max_ms: 0.0 });
    let t = std::time::Instant::now();
    pool::par(
        8,
        &st,
        |s| {
            if s.next >= seed0 + n {
                return None;
            }
            s.next += 1;
            Some(gen::plan(profile, s.next - 1))
        },
        LIMIT,
        |s, p, o| {
            let (v, h) = judge(&o);
            if let pool::Out::Ok(r) = &o {
                s.steps += r.steps;
                s.ops += r.ops;
                s.ok += r.ok_ops;
                for (k, v) in r.marks.iter().chain(r.faults.iter()) {
                    *s.marks.entry(k.clone()).or_insert(0) += v;
                }
            }
            let _ = s.max_ms;
            if let Some(h) = h {
                s.harness.push((p.seed, h));
            } else if let Some(v) = v.first() {
                s.bad.push((p.seed, v.class.clone(), v.detail.clone()));
            }
        },
    );
    let mut s = st.into_inner().unwrap();
    s.bad.sort();
    let mut seen = std::collections::BTreeMap::new();
    for (_, c, d) in &s.bad {
        let k = format!("{c}: {}", d.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>());
        *seen.entry(k).or_insert(0) += 1;
    }
    for (seed, c, d) in s.bad.iter().take(12) {
        println!("{profile} {seed} {c}: {}\n", d.chars().take(700).collect::<String>());
    }
    for (seed, h) in s.harness.iter().take(5) {
        println!("{profile} {seed} HARNESS {}", h.chars().take(300).collect::<String>());
    }
    for (k, n) in seen {
        println!("{n:>5} {k}");
    }
    println!(
        "{n} runs in {:.1}s, {} violations, {} harness errors, {} steps, {} ops ({} ok) {:?}",
        t.elapsed().as_secs_f64(),
        s.bad.len(),
        s.harness.len(),
        s.steps,
        s.ops,
        s.ok,
        s.marks
    );
    pool::cleanup();
    (!s.bad.is_empty()) as i32
}

/// the same plan gives the same run: twice each, in different processes, under different load
pub fn selftest(n: u64, seed: u64) -> i32 {
    let profiles = gen::PROFILES;
    let bad = Mutex::new((0u64, Vec::<String>::new()));
    for jobs in [8usize, 3] {
        let plans: Vec<Plan> = profiles
            .iter()
            .flat_map(|p| (0..n).map(move |i| gen::plan(p, simrt::rng::mix2(seed, i) >> 8)))
            .collect();
        let first: Mutex<(usize, Vec<Option<String>>)> = Mutex::new((0, vec![None; plans.len()]));
        for round in 0..2 {
            first.lock().unwrap().0 = 0;
            std::thread::scope(|s| {
                for _ in 0..jobs {
                    s.spawn(|| loop {
                        let i = {
                            let mut f = first.lock().unwrap();
                            if f.0 >= plans.len() {
                                return;
                            }
                            f.0 += 1;
                            f.0 - 1
                        };
                        let o = pool::run(&plans[i], false, LIMIT);
                        let t = match &o {
                            pool::Out::Ok(r) => serde_json::to_string(r).unwrap(),
                            pool::Out::Crash(s) => s.clone(),
                            pool::Out::Timeout => "timeout".into(),
                        };
                        let mut f = first.lock().unwrap();
                        if round == 0 {
                            f.1[i] = Some(t);
                        } else {
                            let mut b = bad.lock().unwrap();
                            b.0 += 1;
                            if f.1[i].as_ref() != Some(&t) {
                                b.1.push(format!("{} {}", plans[i].profile, plans[i].seed));
                            }
                        }
                    });
                }
            });
        }
    }
    let b = bad.into_inner().unwrap();
    println!("{} pairs of runs, {} differ", b.0, b.1.len());
    for x in b.1.iter().take(20) {
        println!("differs: {x}");
    }
    pool::cleanup();
    !b.1.is_empty() as i32
}

#[derive(serde::Deserialize, Clone)]
struct Known {
    property: String,
    /// the violation class, and what its description contains
    class: String,
    contains: Vec<String>,
    what: String,
}
fn known(prop: &str) -> Vec<Known> {
    #[derive(serde::Deserialize)]
    struct F {
        findings: Vec<Known>,
    }
    std::fs::read_to_string("/verif/known_findings.json")
        .ok()
        .and_then(|s| serde_json::from_str::<F>(&s).ok())
        .map(|f| f.findings.into_iter().filter(|k| k.property == prop).collect())
        .unwrap_or_default()
}

#[derive(Default)]
struct Tot {
    next: u64,
    runs: u64,
    harness: Vec<(String, u64, String)>,
    bad: Vec<(Plan, Viol, u64)>,
    known: std::collections::BTreeMap<String, u64>,
    hashes: std::collections::HashSet<u64>,
    per: std::collections::BTreeMap<String, u64>,
    faults: std::collections::BTreeMap<String, u64>,
    marks: std::collections::BTreeMap<String, u64>,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    ops: u64,
    ok: u64,
    unknown: u64,
    boots: u64,
    pairs: u64,
    diff: u64,
    samples: Vec<serde_json::Value>,
}

pub fn check(prop: &str, tier: &str, seed: u64, out: String, time: Option<u64>) -> i32 {
    let Some(pr) = crate::props::get(prop) else {
        eprintln!("no such property: {prop}");
        return 2;
    };
    let kn = known(prop);
    let t0 = std::time::Instant::now();
    let thorough = tier == "thorough";
    let n = if thorough { pr.thorough } else { pr.quick };
    let limit = Duration::from_secs(time.unwrap_or(if thorough { 3600 } else { 150 }));
    let total: u32 = pr.profiles.iter().map(|p| p.1).sum();
    let base = simrt::rng::mix2(seed, prop.bytes().fold(7, |a, b| a * 31 + b as u64));
    let plan_at = |i: u64| -> Plan {
        let mut x = (i % total as u64) as u32;
        let mut name = pr.profiles[0].0;
        for (p, w) in pr.profiles {
            if x < *w {
                name = p;
                break;
            }
            x -= w;
        }
        // (kept below 2^53 so that every JSON reader keeps it exact)
        gen::plan(name, simrt::rng::mix2(base, i) >> 11)
    };
    let st = Mutex::new(Tot::default());
    println!("property {prop} tier {tier} seed {seed}: {n} runs of {:?}", pr.profiles);
    let max_bad = 3;
    pool::par(
        8,
        &st,
        |s| {
            if s.next >= n || t0.elapsed() > limit || s.bad.len() >= max_bad || s.harness.len() > 50 {
                return None;
            }
            s.next += 1;
            Some(plan_at(s.next - 1))
        },
        LIMIT,
        |s, p, o| {
            let (v, h) = judge(&o);
            s.runs += 1;
            *s.per.entry(p.profile.clone()).or_insert(0) += 1;
            let mut hash = 0;
            if let pool::Out::Ok(r) = &o {
                hash = r.trace_hash;
                if r.ok_ops > 0 && r.switches > 0 {
                    s.hashes.insert(r.trace_hash);
                }
                s.steps += r.steps;
                s.switches += r.switches;
                s.sim_ns += r.sim_ns;
                s.ops += r.ops;
                s.ok += r.ok_ops;
                s.unknown += r.unknown_ops;
                s.boots += r.boots;
                for (k, v) in &r.faults {
                    *s.faults.entry(k.clone()).or_insert(0) += v;
                }
                for (k, v) in &r.marks {
                    *s.marks.entry(k.clone()).or_insert(0) += v;
                }
                if s.samples.len() < 3 && s.runs % 97 == 5 {
                    s.samples.push(sample(&p, r));
                }
            }
            if let Some(h) = h {
                if s.harness.len() < 60 {
                    s.harness.push((p.profile.clone(), p.seed, h));
                }
                return;
            }
            if let Some(v) = v.into_iter().next() {
                match kn.iter().find(|k| k.class == v.class && k.contains.iter().all(|c| v.detail.contains(c))) {
                    Some(k) => *s.known.entry(k.what.clone()).or_insert(0) += 1,
                    None => s.bad.push((p, v, hash)),
                }
            }
        },
    );
    let mut s = st.into_inner().unwrap();
    // some runs again: the same seed must be the same execution
    if s.bad.is_empty() {
        let pairs: Vec<u64> = (0..40.min(s.next)).map(|i| i * s.next / 40.min(s.next).max(1)).collect();
        let c = Mutex::new((0usize, 0u64));
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| loop {
                    let i = {
                        let mut c = c.lock().unwrap();
                        if c.0 >= pairs.len() {
                            return;
                        }
                        c.0 += 1;
                        c.0 - 1
                    };
                    let p = plan_at(pairs[i]);
                    let f = || match pool::run(&p, false, LIMIT) {
                        pool::Out::Ok(r) => serde_json::to_string(&r).unwrap(),
                        _ => "?".into(),
                    };
                    if f() != f() {
                        c.lock().unwrap().1 += 1;
                    }
                });
            }
        });
        s.pairs = pairs.len() as u64;
        s.diff = c.into_inner().unwrap().1;
    }
    let mut replay = None;
    let mut viols = 0;
    s.bad.sort_by_key(|b| b.0.n_ops());
    for (p, v, hash) in &s.bad {
        match confirm(p, v, *hash) {
            true => {
                viols += 1;
                let (q, nruns) = if v.class == "memory" || v.detail.contains("of real time") {
                    (p.clone(), 0)
                } else {
                    crate::minim::minimise(p, &v.class, Duration::from_secs(if thorough { 180 } else { 60 }))
                };
                let path = write_replay(&out, prop, &q, p, v, nruns);
                println!("  {}: {}", v.class, v.detail.chars().take(1500).collect::<String>());
                println!("  seed {} of profile {}; {} operations, {} after {nruns} runs of minimisation", p.seed, p.profile, p.n_ops(), q.n_ops());
                replay = Some(path);
                break;
            }
            false => println!("UNSTABLE: {} {}: {} {}", p.profile, p.seed, v.class, v.detail.chars().take(300).collect::<String>()),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.hashes.len(),
            "rule": "one evaluation is one simulated execution of the whole server, generated from (profile, seed) with the seed drawn from VERIF_SEED, the property and the run number; it is non-trivial if a statement succeeded and the scheduler switched tasks, and distinct if the hash of its scheduling decisions, network deliveries and disk operations is new",
            "samples": s.samples,
            "runs_per_profile": s.per,
            "runs_per_hour": (s.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": s.sim_ns / 1_000_000_000,
            "simulated_seconds_per_wall_second": (s.sim_ns as f64 / 1e9 / wall) as u64,
            "scheduling_points": s.steps,
            "context_switches": s.switches,
            "statements": s.ops,
            "statements_that_succeeded": s.ok,
            "statements_without_answer": s.unknown,
            "server_starts": s.boots,
            "faults_injected": s.faults,
            "events_reached": s.marks,
            "harness_errors": s.harness.len(),
            "determinism_pairs": s.pairs,
            "determinism_mismatches": s.diff,
            "known_findings_hit": s.known,
            "real_components": "all of server/src and libsky compiled from /repo (query language, executor, index, storage engine, journals, fractal background tasks, protocol, authentication, configuration, shutdown)",
            "stub_components": "tokio, parking_lot, crossbeam-epoch, std::{sync,thread,time,fs,net}, getrandom, OpenSSL/tokio-openssl, rcrypt (fast hash), jemalloc, the kernel and the disk"
        },
        "assumptions": [
            "the crash model is the one of a journalling file system: syncing a file also commits the metadata operations that came before; unsynced file data survives as a prefix per file (possibly torn), unsynced metadata as a prefix",
            "atomics are sequentially consistent in the simulation (no weak memory effects)",
            "compiled with the profile of the simulation (opt-level 1, debug assertions and overflow checks on)"
        ],
        "wall_s": wall,
        "violations": viols
    });
    let dir = format!("{out}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write the evidence: {e}");
        pool::cleanup();
        return 2;
    }
    for (k, c) in &s.known {
        println!("KNOWN-FINDING: property={prop} {k} ({c} runs)");
    }
    for k in kn.iter().filter(|k| !s.known.contains_key(&k.what)) {
        println!("KNOWN-FINDING: property={prop} {} (not met in these runs)", k.what);
    }
    println!(
        "{} runs in {wall:.1} s, {} distinct, {} steps, {} statements, {} harness errors, {} of {} repeated runs differ",
        s.runs, s.hashes.len(), s.steps, s.ops, s.harness.len(), s.diff, s.pairs
    );
    for (p, seed, h) in s.harness.iter().take(3) {
        println!("harness error: {p} {seed}: {}", h.chars().take(400).collect::<String>());
    }
    pool::cleanup();
    if let Some(r) = replay {
        println!("VIOLATION property={prop} replay={r}");
        return 1;
    }
    if s.bad.len() > viols || s.harness.len() as u64 * 100 > s.runs || s.runs == 0 {
        println!("no verdict");
        return 2;
    }
    0
}
fn confirm(p: &Plan, v: &Viol, hash: u64) -> bool {
    // (a process that died has no trace to compare)
    for i in 0..3 {
        let o = pool::run(p, false, LIMIT);
        let (w, _) = judge(&o);
        let same = match &o {
            pool::Out::Ok(r) => r.trace_hash == hash || i > 0,
            _ => true,
        };
        if same && w.iter().any(|w| w.class == v.class) {
            return true;
        }
    }
    v.class == "memory"
}
fn write_replay(out: &str, prop: &str, q: &Plan, orig: &Plan, v: &Viol, runs: u64) -> String {
    let _ = std::fs::create_dir_all(format!("{out}/out"));
    let path = format!("{out}/out/{prop}-{}-{}.json", orig.profile, orig.seed);
    let mut q = q.clone();
    let o = pool::run(&q, false, LIMIT);
    let (w, _) = judge(&o);
    let got = w.iter().find(|w| w.class == v.class).unwrap_or(v);
    q.expect = Some(Expect {
        property: prop.into(),
        class: got.class.clone(),
        detail: got.detail.clone(),
        trace_hash: match &o {
            pool::Out::Ok(r) => r.trace_hash,
            _ => 0,
        },
    });
    let js = serde_json::to_value(&q).unwrap();
    let mut js = js.as_object().unwrap().clone();
    js.insert("minimised_from".into(), serde_json::json!({"profile": orig.profile, "seed": orig.seed, "operations": orig.n_ops(), "runs": runs}));
    js.insert("replay_with".into(), format!("/verif/check.sh replay {path}").into());
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap() + "\n");
    path
}
fn sample(p: &Plan, r: &Report) -> serde_json::Value {
    let first: Vec<String> = p
        .phases
        .iter()
        .flat_map(|ph| ph.clients.iter().enumerate())
        .flat_map(|(i, c)| {
            c.ops.iter().take(4).map(move |o| match o {
                Op::Q(st) => format!("client {i}: {}", crate::lin::cut(&crate::lin::show(st), 120)),
                o => format!("client {i}: {}", crate::lin::cut(&format!("{o:?}"), 120)),
            })
        })
        .take(16)
        .collect();
    serde_json::json!({
        "profile": p.profile, "seed": p.seed, "phases": p.phases.len(), "operations": p.n_ops(),
        "phase_ends": p.phases.iter().map(|x| format!("{:?}", x.end)).collect::<Vec<_>>(),
        "faults": p.phases.iter().flat_map(|x| x.faults.iter()).map(|f| format!("{f:?}")).collect::<Vec<_>>(),
        "first_operations": first, "trace_hash": format!("{:016x}", r.trace_hash), "steps": r.steps,
        "simulated_ms": r.sim_ns / 1_000_000, "fired": r.faults,
    })
}
