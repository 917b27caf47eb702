//! Executes one plan in this process and judges it.
use crate::v1;
use crate::{
    client::*,
    lin::{self, show, show_r, HEv, Lin},
    model::*,
    plan::*,
    val::*,
};
use serde::{Deserialize, Serialize};
use simrt::{
    fs, net,
    proc::{self, Exit},
    sched,
};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub harness: Option<String>,
    pub trace_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub ops: u64,
    pub ok_ops: u64,
    pub unknown_ops: u64,
    pub boots: u64,
    pub faults: BTreeMap<String, u64>,
    pub marks: BTreeMap<String, u64>,
    pub log: Vec<String>,
}
pub const ROOT_PWD: &str = "root-password-0123456789";
const SEC: u64 = 1_000_000_000;
const OP_DEADLINE: u64 = 400 * SEC;

pub struct Ctx {
    plan: Plan,
    pub rep: Report,
    hist: Vec<HEv>,
    /// history events before this index belong to earlier epochs
    epoch: usize,
    /// when the current server was asked to stop
    term_at: Option<u64>,
    seq: u64,
    db0: Db,
    server: Option<u32>,
    server_dying: bool,
    boot_at: u64,
    verbose: bool,
    phase: usize,
    clients_left: usize,
    waiter: usize,
    conns: Vec<(usize, u32)>,
    /// parts of the run with relaxed rules
    resetting: bool,
    disarmed_at: Option<u64>,
    epoch_started: u64,
    out_fd: i32,
    had_err: bool,
    /// the last stop was a crash
    unclean: bool,
    root_pw: String,
    root_pws: Vec<String>,
    /// length of the history and what the data directory held at clean stops: spaces, models
    stops: Vec<(usize, usize, usize)>,
}
static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
fn cx() -> &'static mut Ctx {
    unsafe { CTX.as_mut().unwrap() }
}
fn viol(class: &str, detail: impl Into<String>) {
    let c = cx();
    let detail = detail.into();
    if c.verbose {
        note(format!("VIOLATION {class}: {detail}"));
    }
    if c.rep.viols.len() < 8 {
        c.rep.viols.push(Viol { class: class.into(), detail: lin::cut(&detail, 3000) });
    }
}
pub fn mark(k: &str) {
    *cx().rep.marks.entry(k.to_string()).or_insert(0) += 1;
}
fn note(s: String) {
    let c = cx();
    if c.verbose {
        c.rep.log.push(format!("[{:>14}ns #{:>6}] {s}", sched::now(), sched::s().stats.steps));
    }
}
fn seq() -> u64 {
    cx().seq += 1;
    cx().seq
}

fn on_fatal(kind: &str, detail: String) -> ! {
    match kind {
        "deadlock" => viol("hang", format!("nothing can run any more: {detail}")),
        "step-limit" => viol("hang", format!("step limit reached: {detail}")),
        k => cx().rep.harness = Some(format!("{k}: {detail}")),
    }
    finish()
}
/// send the report and leave
fn finish() -> ! {
    let c = cx();
    let st = &sched::s().stats;
    c.rep.trace_hash = st.trace_hash;
    c.rep.steps = st.steps;
    c.rep.switches = st.switches;
    c.rep.sim_ns = sched::now();
    c.rep.faults = fs::fs().counts.clone();
    let n = net::net();
    for (k, v) in [
        ("net-fragment", n.frags),
        ("net-delay", n.delays),
        ("conn-reset", n.resets),
        ("accept-error", n.accept_errs),
        ("thread-stall", st.stalls),
    ] {
        if v > 0 {
            *c.rep.faults.entry(k.into()).or_insert(0) += v;
        }
    }
    for p in proc::procs().iter() {
        for x in &p.panics {
            if c.rep.viols.iter().any(|v| v.class == "panic" && v.detail == *x) {
                continue;
            }
            viol("panic", x.clone());
        }
        if c.verbose {
            for (t, l) in &p.log {
                c.rep.log.push(format!("[{t:>14}ns] server {}: {l}", p.group));
            }
        }
    }
    let mut secrets = c.root_pws.clone();
    for e in &c.hist {
        if let St::CreateUser { p, .. } | St::AlterUser { p, .. } = &e.st {
            secrets.push(p.clone());
        }
    }
    secrets.sort();
    secrets.dedup();
    for (f, b) in fs::snapshot() {
        let Some(b) = b else { continue };
        for x in &secrets {
            if x.len() > 8 && b.windows(x.len()).any(|w| w == x.as_bytes()) {
                viol("secret", format!("the password {x} is stored in readable form in {f}"));
            }
        }
    }
    if let Some(e) = fs::fs().escapes.first() {
        viol("escape", format!("file access outside the data directory: {e}"));
    }
    let s = serde_json::to_vec(&c.rep).unwrap_or_default();
    let mut i = 0;
    while i < s.len() {
        let r = unsafe { libc::syscall(libc::SYS_write, c.out_fd, s[i..].as_ptr(), s.len() - i) };
        if r <= 0 {
            break;
        }
        i += r as usize;
    }
    unsafe { libc::_exit(0) }
}

fn p32(p: f64) -> u32 {
    (p.clamp(0.0, 1.0) * u32::MAX as f64) as u32
}

/// run the plan in this (freshly forked, single threaded) process; never returns
pub fn run(plan: Plan, dir: &str, verbose: bool, out_fd: i32) -> ! {
    unsafe {
        CTX = Some(Ctx {
            plan: plan.clone(),
            rep: Report::default(),
            hist: vec![],
            epoch: 0,
            term_at: None,
            seq: 0,
            db0: Db::fresh(ROOT_PWD),
            server: None,
            server_dying: false,
            boot_at: 0,
            verbose,
            phase: 0,
            clients_left: 0,
            waiter: 0,
            conns: vec![],
            resetting: false,
            disarmed_at: None,
            epoch_started: 0,
            out_fd,
            had_err: false,
            unclean: false,
            root_pw: ROOT_PWD.into(),
            root_pws: vec![],
            stops: vec![],
        });
    }
    fs::setup(dir);
    if !fs::chdir(dir) {
        cx().rep.harness = Some(format!("cannot enter {dir}"));
    }
    if verbose {
        fs::fs().trace = Some(vec![]);
    }
    let s = &plan.sched;
    let mut p = [0u32; sched::N_PT];
    for (i, x) in s.p.iter().enumerate() {
        p[i] = p32(*x);
    }
    sched::init(
        s.seed,
        sched::SchedCfg {
            p,
            pct_depth: s.pct_depth,
            pct_len: s.pct_len,
            tick: s.tick,
            max_steps: s.max_steps,
            p_stall: p32(s.p_stall),
            stall_len: s.stall_len,
        },
        on_fatal,
    );
    net::net().cfg =
        Some(net::NetCfg { max_delay: plan.net.delay, p_frag: p32(plan.net.p_frag), cap: plan.net.cap });
    unsafe { fs::FREE_RAM = plan.boot.free_ram };
    fs::fs().p_slow = p32(plan.boot.p_slow);
    fs::fs().slow_ns = plan.boot.slow_ns;
    fs::fs().p_short = p32(plan.boot.p_short);
    if plan.boot.tls > 0 {
        let mut img = BTreeMap::new();
        img.insert("cert.pem".to_string(), Some(b"SIMCERT".to_vec()));
        img.insert("key.pem".to_string(), Some(b"SIMKEY passphrase-of-the-key".to_vec()));
        img.insert("pass.pem".to_string(), Some(b"passphrase-of-the-key".to_vec()));
        fs::install(&img);
    }
    if std::panic::catch_unwind(main_loop).is_err() {
        if cx().rep.harness.is_none() {
            cx().rep.harness = Some("driver panicked".into());
        }
    }
    finish()
}

fn args() -> Vec<String> {
    let b = &cx().plan.boot;
    let mut a: Vec<String> = vec![
        "skyd".into(),
        "--mode".into(),
        "dev".into(),
        "--auth-root-password".into(),
        cx().root_pw.clone(),
        "--service-window".into(),
        b.window.to_string(),
    ];
    if b.tls != 1 {
        a.extend(["--endpoint".into(), format!("tcp@127.0.0.1:{PORT}")]);
    }
    if b.tls > 0 {
        a.extend([
            "--endpoint".into(),
            format!("tls@127.0.0.1:{TLS_PORT}"),
            "--tlscert".into(),
            "cert.pem".into(),
            "--tlskey".into(),
            "key.pem".into(),
            "--tls-passphrase".into(),
            "pass.pem".into(),
        ]);
    }
    a
}

/// how long the server may take for things once faults have stopped
fn window() -> u64 {
    cx().plan.boot.window * SEC
}
fn slack() -> u64 {
    let b = &cx().plan.boot;
    // (an operation of the disk that takes its time may hold up everything behind it)
    let slow: u64 = (cx().plan.phases.iter().flat_map(|p| &p.faults))
        .map(|f| match f.kind {
            FK::Slow(n) => n.saturating_mul(f.repeat.max(1) as u64 + 1),
            _ => 0,
        })
        .sum();
    5 * SEC + slow + if b.p_slow > 0.0 { 400 * b.slow_ns } else { 0 }
}
fn flush_horizon() -> u64 {
    2 * window() + slack()
}
fn heal_horizon() -> u64 {
    6 * window() + 60 * SEC + slack()
}

enum BootRes {
    Up,
    Exited(Exit),
    Hung,
}
fn boot() -> BootRes {
    let c = cx();
    c.rep.boots += 1;
    let g = proc::start(args(), skydsim::__sim_main);
    proc::get(g).workers.limit = c.plan.boot.workers;
    c.server = Some(g);
    c.server_dying = false;
    note(format!("start server {g}"));
    cx().term_at = None;
    // (a disk that needs seconds for every operation)
    let slow = fs::fs().armed && cx().plan.phases.get(cx().phase).map_or(false, |p| p.faults.iter().any(|f| matches!(f.kind, FK::Slow(_))));
    let dl = sched::now() + if slow { 40 * OP_DEADLINE } else { OP_DEADLINE };
    let port = if c.plan.boot.tls == 1 { TLS_PORT } else { PORT };
    loop {
        if let Some(e) = &proc::get(g).exit {
            c.server = None;
            note(format!("server {g} ended while starting: {e:?}"));
            return BootRes::Exited(e.clone());
        }
        let need: &[u16] = match c.plan.boot.tls {
            2 => &[PORT, TLS_PORT],
            _ => std::slice::from_ref(&port),
        };
        if need.iter().all(|p| net::listening(*p)) {
            c.boot_at = sched::now();
            return BootRes::Up;
        }
        if sched::now() > dl {
            return BootRes::Hung;
        }
        sched::sleep_ns(1_000_000);
    }
}

fn arm(on: bool) {
    let f = fs::fs();
    if f.armed && !on {
        cx().disarmed_at = Some(sched::now());
    }
    f.armed = on;
}

fn main_loop() {
    let n = cx().plan.phases.len();
    for i in 0..n {
        cx().phase = i;
        let ph = cx().plan.phases[i].clone();
        fs::fs().faults = ph.faults.iter().map(conv_fault).collect();
        if cx().server.is_none() {
            if !ph.v1.is_empty() && !cx().unclean && cx().rep.boots > 0 {
                match v1::downgrade(&fs::snapshot(), &ph.v1) {
                    Some(img) => {
                        fs::install(&img);
                        mark("previous-format");
                        note("the directory is in the previous format now".into());
                    }
                    None => note("not turned into the previous format".into()),
                }
            }
            if !ph.tamper.is_empty() {
                tamper(&ph.tamper);
            }
            if !start_server(&ph) {
                return;
            }
        }
        arm(true);
        run_phase(&ph);
        if !cx().rep.viols.is_empty() {
            break;
        }
        end_phase(&ph);
        if !cx().rep.viols.is_empty() {
            break;
        }
    }
    arm(false);
    fs::fs().faults.clear();
    if cx().rep.viols.is_empty() && cx().plan.mode == Mode::Crash {
        // whatever happened: the server must come up again, and the data must be right
        if cx().server.is_some() {
            judge_epoch_live();
            if !cx().rep.viols.is_empty() {
                return;
            }
            stop_server(true);
        }
        if cx().rep.viols.is_empty() {
            let ph = Phase {
                clients: vec![],
                faults: vec![],
                arm_boot: false,
                timed: vec![],
                settle: 0,
                arm_end: false,
                end: End::Term,
                probe: true,
                second: false,
                rootp: None,
                tamper: vec![],
                v1: vec![],
            };
            cx().phase = n;
            start_server(&ph);
        }
    }
    if cx().server.is_some() && cx().rep.viols.is_empty() {
        stop_server(true);
    }
    if cx().plan.mode == Mode::Lin {
        judge_lin();
    }
}

fn conv_fault(f: &Fault) -> fs::Fault {
    let op = match f.op.as_str() {
        "open" => fs::Op::Open,
        "create" => fs::Op::Create,
        "read" => fs::Op::Read,
        "write" => fs::Op::Write,
        "fsync" => fs::Op::Fsync,
        "trunc" => fs::Op::Trunc,
        "rename" => fs::Op::Rename,
        "unlink" => fs::Op::Unlink,
        "mkdir" => fs::Op::Mkdir,
        "rmdir" => fs::Op::Rmdir,
        _ => fs::Op::Any,
    };
    let k = match f.kind {
        FK::Err(e) => fs::Kind::Err(e),
        FK::Short => fs::Kind::Short,
        FK::Torn(e) => fs::Kind::Torn(e),
        FK::SyncLost => fs::Kind::SyncLost,
        FK::CrashBefore(power) => fs::Kind::CrashBefore { power },
        FK::CrashMid(power) => fs::Kind::CrashMid { power },
        FK::CrashAfter(power) => fs::Kind::CrashAfter { power },
        FK::Slow(n) => fs::Kind::Slow(n),
    };
    fs::Fault::new(op, &f.path, f.nth, f.repeat, k)
}

/// boot (again); in crash mode compare what came back with what had to
fn start_server(ph: &Phase) -> bool {
    let mut faulty = ph.arm_boot;
    if let Some(i) = ph.rootp {
        let c = cx();
        c.root_pw = if i == 0 { ROOT_PWD.into() } else { format!("root-password-number-{i}") };
        mark("root-password-changed");
    }
    let rp = cx().root_pw.clone();
    cx().root_pws.push(rp.clone());
    for attempt in 0..6 {
        arm(faulty);
        let inj0 = fs::fs().injected_errors;
        let r = boot();
        arm(false);
        let injected = fs::fs().injected_errors > inj0;
        match r {
            BootRes::Up => {
                mark("boot-ok");
                if cx().plan.mode == Mode::Crash {
                    let c = cx();
                    let ok = if c.rep.boots == 1 {
                        c.db0.users.insert(ROOT.into(), rp);
                        true
                    } else {
                        if c.hist.is_empty() {
                            pend_fresh();
                        }
                        recover_check()
                    };
                    let c = cx();
                    c.epoch = c.hist.len();
                    c.epoch_started = sched::now();
                    fs::fs().first_err = None;
                    fs::fs().last_err = None;
                    fs::fs().path_errs.clear();
                    return ok;
                }
                let ev = push_ev(99_999, ROOT, &St::RootPw(rp));
                done_ev(ev, R::Empty);
                return true;
            }
            BootRes::Hung => {
                viol("hang", format!("server does not finish starting: {}", sched::dump_threads()));
                return false;
            }
            BootRes::Exited(e) => {
                let crashed = fs::fs().crashed.take();
                if let Some(power) = crashed {
                    mark("crash-during-boot");
                    crash_disk(if power { 2 } else { 1 });
                    cx().had_err = true;
                    continue;
                }
                if !ph.tamper.is_empty() {
                    mark("refused-tampered");
                    if !matches!(e, Exit::Code(c) if c != 0) {
                        viol("no-start", format!("damaged data: the server did not refuse cleanly: {e:?}"));
                    }
                    // nothing more to see here
                    return false;
                }
                if faulty && injected && attempt < 5 {
                    mark("boot-failed-by-fault");
                    if !matches!(e, Exit::Code(c) if c != 0) {
                        viol("exit", format!("start failed without a clean error: {e:?}"));
                        return false;
                    }
                    faulty = false;
                    continue;
                }
                let log: Vec<String> = last_log();
                viol("no-start", format!("the server does not start: {e:?}; log: {}", log.join(" / ")));
                return false;
            }
        }
    }
    viol("no-start", "the server does not start after several attempts");
    false
}
fn last_log() -> Vec<String> {
    proc::procs()
        .last()
        .map(|p| p.log.iter().rev().take(3).map(|x| x.1.clone()).collect())
        .unwrap_or_default()
}

fn crash_disk(mode: u32) {
    cx().unclean = true;
    let img = fs::crash_image(mode);
    fs::count(["power-loss", "kill", "power-loss-partial"][mode as usize], 1);
    fs::install(&img);
    note(format!("disk after the crash (mode {mode}): {} entries", img.len()));
}

fn run_phase(ph: &Phase) {
    let c = cx();
    c.resetting = false;
    c.waiter = sched::cur();
    c.clients_left = ph.clients.len();
    for (i, cl) in ph.clients.iter().enumerate() {
        let cl = cl.clone();
        let id = (c.phase * 100 + i) as u32;
        sched::spawn(&format!("client{i}"), 0, move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| client_main(id, cl)));
            if r.is_err() && cx().rep.harness.is_none() {
                cx().rep.harness = Some("client thread panicked".into());
            }
            cx().clients_left -= 1;
            sched::wake(cx().waiter);
        });
    }
    let phase = c.phase;
    for (t, e) in &ph.timed {
        let e = e.clone();
        sched::after(*t, move || {
            if cx().phase == phase {
                timed_event(e)
            }
        });
    }
    if ph.second {
        second_instance();
    }
    while cx().clients_left > 0 {
        sched::block("clients", None);
    }
    if cx().rep.harness.is_some() {
        finish();
    }
    if ph.settle > 0 && server_alive() {
        sched::sleep_ns(ph.settle);
    }
}
/// the command line of another server on the same directory (on other ports, so that these don't decide)
fn args2() -> Vec<String> {
    args()
        .into_iter()
        .map(|a| a.replace(&format!(":{PORT}"), &format!(":{}", PORT + 10)).replace(&format!(":{TLS_PORT}"), &format!(":{}", TLS_PORT + 10)))
        .collect()
}
fn up2() -> bool {
    let t = cx().plan.boot.tls;
    (t == 1 || net::listening(PORT + 10)) && (t == 0 || net::listening(TLS_PORT + 10))
}
fn second_instance() {
    sched::sleep_ns(1_000_000);
    let n = 1 + sched::rng().below(3);
    for _ in 0..n {
        let Some(g1) = cx().server else { return };
        if !proc::alive(g1) || cx().server_dying {
            return;
        }
        let before = fs::snapshot();
        let g = proc::start(args2(), skydsim::__sim_main);
        note(format!("start a second server {g}"));
        let e = proc::wait_exit(g, Some(sched::now() + 60 * SEC));
        mark("second-instance");
        match e {
            Some(Exit::Code(c)) if c != 0 => {}
            x => {
                if proc::alive(g1) && !cx().server_dying {
                    viol("second-instance", format!("a second server on the same data directory was not refused: {x:?}"));
                    return;
                }
            }
        }
        let after = fs::snapshot();
        let lock = ".sky_pid";
        if proc::alive(g1) && before.contains_key(lock) && !after.contains_key(lock) && !cx().server_dying {
            viol("second-instance", "the refused second server removed the first one's lock file");
        }
        if sched::rng().below(2) == 0 {
            let n = sched::rng().below(200_000_000);
            sched::sleep_ns(n);
        }
    }
}
/// somebody who waits for the server to end starts the next one as soon as possible
fn handover(g1: sched::Group) {
    for _ in 0..12 {
        let gap = *[0, 100_000, 5_000_000, 400_000_000].get(sched::rng().idx(4)).unwrap();
        sched::sleep_ns(1 + sched::rng().below(gap + 1));
        if !proc::alive(g1) {
            return;
        }
        let g = proc::start(args2(), skydsim::__sim_main);
        note(format!("start the next server {g}"));
        mark("handover");
        let end = sched::now() + heal_horizon();
        while proc::alive(g) && !up2() && sched::now() < end {
            sched::sleep_ns(3_000_000);
        }
        let ran = proc::alive(g);
        if ran && !up2() {
            if proc::alive(g1) {
                proc::end(g, Exit::Killed);
                continue;
            }
            viol("hang", format!("the next server does not finish starting: {}", sched::dump_threads()));
            return;
        }
        if ran {
            mark("handover-done");
            proc::signal(g, libc::SIGTERM);
        }
        let e = proc::wait_exit(g, Some(sched::now() + heal_horizon()));
        match &e {
            Some(Exit::Code(0)) if ran => {}
            Some(Exit::Code(c)) if !ran && *c != 0 => {}
            e => viol("exit", format!("the next server ended with {e:?}; log: {}", proc::get(g).log.iter().rev().take(4).map(|x| x.1.clone()).collect::<Vec<_>>().join(" / "))),
        }
        let bad: Vec<_> = fs::fs().conflicts.drain(..).filter(|(a, b, _)| *b != g || ran || *a == g).collect();
        if let Some((a, b, what)) = bad.first() {
            viol("second-instance", format!("{what} by server {a} when server {b} had begun to use the same data"));
        }
        if ran || !cx().rep.viols.is_empty() {
            return;
        }
    }
}
fn timed_event(e: Ev) {
    match e {
        Ev::Term => {
            if let Some(g) = cx().server {
                note("signal TERM".into());
                cx().term_at.get_or_insert(sched::now());
                cx().server_dying = true;
                proc::signal(g, libc::SIGTERM);
            }
        }
        Ev::Kill(m) => {
            if let Some(g) = cx().server.filter(|g| proc::alive(*g)) {
                note(format!("kill mode {m}"));
                cx().server_dying = true;
                proc::end(g, Exit::Killed);
                fs::fs().crashed = Some(m != 1);
            }
        }
        Ev::ClockJump(d) => {
            fs::count("clock-jump", 1);
            unsafe { fs::CLOCK_SKEW_NS += d }
        }
        Ev::ResetAll => {
            cx().resetting = true;
            for (c, _) in cx().conns.clone() {
                net::reset(c);
            }
        }
        Ev::AcceptErr(n, tls) => {
            let p = match cx().plan.boot.tls {
                0 => PORT,
                2 if !tls => PORT,
                _ => TLS_PORT,
            };
            fs::count("accept-error", n as u64);
            for _ in 0..n {
                net::inject_accept_error(p, std::io::ErrorKind::Other);
            }
        }
        Ev::Disarm => arm(false),
    }
}
fn server_alive() -> bool {
    cx().server.map_or(false, |g| proc::alive(g))
}

fn end_phase(ph: &Phase) {
    // did the server die?
    if let Some(g) = cx().server {
        if !proc::alive(g) {
            let e = proc::get(g).exit.clone().unwrap();
            let crash = fs::fs().crashed.take();
            arm(false);
            match (crash, &e) {
                (Some(power), Exit::Killed) => {
                    let mode = match ph.end {
                        End::Kill(m) if power && m != 1 => m,
                        _ if power => 2,
                        _ => 1,
                    };
                    mark("crashed");
                    cx().server = None;
                    judge_epoch(JudgeAt::Crash);
                    crash_disk(mode);
                    return;
                }
                (None, Exit::Code(0)) if cx().server_dying => {
                    cx().server = None;
                    mark("terminated-in-flight");
                    judge_epoch(JudgeAt::Term);
                    return;
                }
                _ => {
                    viol("exit", format!("the server ended by itself: {e:?}; log: {}", last_log().join(" / ")));
                    return;
                }
            }
        }
    }
    if cx().server_dying {
        // TERM was sent while the clients were at work
        if !ph.arm_end {
            arm(false);
        }
        wait_stop();
        return;
    }
    if !ph.arm_end {
        arm(false);
    }
    if ph.probe {
        let was = fs::fs().armed;
        arm(false);
        probe(&BTreeMap::new());
        arm(was);
        if !cx().rep.viols.is_empty() {
            return;
        }
    }
    match ph.end {
        End::Keep => {
            arm(false);
        }
        End::Term => stop_server(false),
        End::Kill(m) => {
            arm(false);
            if let Some(g) = cx().server.take() {
                proc::end(g, Exit::Killed);
                mark("crashed");
                judge_epoch(JudgeAt::Crash);
                crash_disk(m);
            }
        }
    }
}
fn stop_server(_last: bool) {
    if let Some(g) = cx().server {
        note("signal TERM".into());
        cx().term_at.get_or_insert(sched::now());
        cx().server_dying = true;
        proc::signal(g, libc::SIGTERM);
        if cx().plan.phases.get(cx().phase).map_or(false, |p| p.second) {
            handover(g);
            if !cx().rep.viols.is_empty() {
                return;
            }
        }
        wait_stop();
    }
}
fn wait_stop() {
    let Some(g) = cx().server else { return };
    let r = proc::wait_exit(g, Some(sched::now() + heal_horizon() + OP_DEADLINE));
    let crash = fs::fs().crashed.take();
    arm(false);
    match (r, crash) {
        (Some(Exit::Killed), Some(power)) => {
            mark("crash-during-shutdown");
            cx().server = None;
            judge_epoch(JudgeAt::Crash);
            crash_disk(if power { 2 } else { 1 });
        }
        (Some(Exit::Code(0)), None) => {
            mark("clean-stop");
            cx().server = None;
            cx().unclean = false;
            note_stop();
            judge_epoch(JudgeAt::Term);
        }
        (Some(e), _) => {
            viol("exit", format!("shutdown ended with {e:?}; log: {}", last_log().join(" / ")));
        }
        (None, _) => viol("hang", format!("the server does not stop on request: {}", sched::dump_threads())),
    }
}

/// what is left of dropped spaces and models?
fn note_stop() {
    let c = cx();
    if c.plan.mode != Mode::Lin || c.hist.iter().any(|e| e.resp.is_none()) {
        return;
    }
    let (mut spaces, mut models) = (0, 0);
    for (p, b) in fs::snapshot() {
        match p.strip_prefix("data/") {
            Some(p) if b.is_none() && !p.contains('/') => spaces += 1,
            Some(_) if b.is_some() => models += 1,
            _ => {}
        }
    }
    c.stops.push((c.hist.len(), spaces, models));
}

/* ------------------------------------------------------------------ clients */

fn push_ev(client: u32, user: &str, st: &St) -> usize {
    let c = cx();
    let inv = seq();
    c.hist.push(HEv {
        client,
        user: user.into(),
        st: st.clone(),
        inv,
        ret: u64::MAX,
        resp: None,
        t_inv: sched::now(),
        t_ret: u64::MAX,
        phase: c.phase,
        tolerant: false,
        after: 0,
    });
    if c.verbose {
        note(format!("c{client} -> {}", show(st)));
    }
    c.rep.ops += 1;
    c.hist.len() - 1
}
fn done_ev(i: usize, r: R) {
    let s = seq();
    let e = &mut cx().hist[i];
    e.ret = s;
    e.t_ret = sched::now();
    if !matches!(r, R::Err(_)) {
        cx().rep.ok_ops += 1;
    }
    if cx().verbose {
        note(format!("c{} <- {} for {}", e.client, show_r(&r), show(&e.st)));
    }
    e.resp = Some(r);
}
fn lost_ev(i: usize) {
    cx().rep.unknown_ops += 1;
    let e = &cx().hist[i];
    if cx().verbose {
        note(format!("c{} ?? no answer for {}", e.client, show(&e.st)));
    }
}
/// may connections break now without the server being wrong?
fn loss_ok() -> bool {
    !server_alive() || cx().server_dying || cx().resetting
}
/// (the generated password of root stands for the configured one)
fn pwd_now(user: &str, pwd: &str) -> String {
    if user == ROOT && pwd == ROOT_PWD {
        cx().root_pw.clone()
    } else {
        pwd.to_string()
    }
}
fn login(id: u32, user: &str, pwd: &str, tls: bool, cut: &mut Cut) -> Option<Cl> {
    let pwd = &*pwd_now(user, pwd);
    let st = St::Login { u: user.into(), p: pwd.into() };
    let ev = push_ev(id, user, &st);
    for _ in 0..50 {
        match Cl::login(tls, user, pwd, cut, sched::now() + OP_DEADLINE) {
            Ok(c) => {
                cx().conns.push((c.c, id));
                done_ev(ev, R::Empty);
                return Some(c);
            }
            Err(CE::Denied(c)) => {
                mark("login-denied");
                done_ev(ev, R::Err(c as u16));
                return None;
            }
            Err(CE::Refused) | Err(CE::Closed) if loss_ok() => {
                if !server_alive() || cx().server_dying {
                    return None;
                }
            }
            Err(CE::Timeout) => {
                viol("hang", format!("login of client {id} is not answered: {}", sched::dump_threads()));
                return None;
            }
            Err(CE::Proto(s)) => {
                viol("proto", format!("login of client {id}: {s}"));
                return None;
            }
            Err(e) => {
                // give the server a moment to be seen dead
                sched::sleep_ns(1_000_000);
                if !loss_ok() {
                    viol("conn", format!("login of client {id} failed: {e:?}"));
                    return None;
                }
            }
        }
    }
    None
}

fn client_main(id: u32, cl: Client) {
    let mut cut = Cut {
        p: cx().plan.net.cut,
        gap: cx().plan.net.gap,
        rng: simrt::rng::mix2(cx().plan.sched.seed, id as u64 + 77),
    };
    if cl.delay > 0 {
        sched::sleep_ns(cl.delay);
    }
    let tls = match cx().plan.boot.tls {
        0 => false,
        1 => true,
        _ => cl.tls,
    };
    let mut conn: Option<Cl> = None;
    let mut silent = vec![];
    let mut denied = 0;
    for op in &cl.ops {
        if !server_alive() || cx().server_dying || !cx().rep.viols.is_empty() {
            break;
        }
        // every statement needs a session
        if conn.is_none() && matches!(op, Op::Q(_) | Op::Abort(..) | Op::Garbage(_) | Op::Wrong(_) | Op::SlowRead(..)) {
            conn = login(id, &cl.user, &cl.pwd, tls, &mut cut);
            if conn.is_none() {
                // (the user may be created later)
                denied += 1;
                if denied > 5 {
                    break;
                }
                continue;
            }
        }
        match op {
            Op::Q(st) => {
                let c = conn.as_mut().unwrap();
                let ev = push_ev(id, &cl.user, st);
                match c.query(st, &mut cut, sched::now() + OP_DEADLINE) {
                    Ok(r) => done_ev(ev, r),
                    Err(e) => {
                        lost_ev(ev);
                        conn = None;
                        if !failed(id, st, e) {
                            break;
                        }
                    }
                }
            }
            Op::Sleep(n) => sched::sleep_ns(*n),
            Op::Tick(n, off) => {
                let w = window();
                let base = cx().boot_at;
                let k = (sched::now() - base) / w + *n as u64;
                let t = (base + k * w) as i64 + off;
                if t > sched::now() as i64 {
                    sched::sleep_ns(t as u64 - sched::now());
                }
            }
            Op::Reconnect => {
                if let Some(mut c) = conn.take() {
                    c.close();
                }
            }
            Op::Stall(n, ns) => {
                if let Some(mut c) = login(id + 60, &cl.user, &cl.pwd, tls, &mut cut) {
                    let b = St::InspectGlobal.packet().repeat(*n as usize);
                    if c.send(&b, &mut cut).is_ok() {
                        mark("stalled-reader");
                    }
                    let dl = sched::now() + ns;
                    while server_alive() && !cx().server_dying && sched::now() < dl {
                        sched::sleep_ns(20_000_000);
                    }
                    // a server that was asked to stop does so whatever we do
                    let dl = sched::now() + heal_horizon() + OP_DEADLINE;
                    while cx().server_dying && server_alive() && sched::now() < dl {
                        sched::sleep_ns(20_000_000);
                    }
                    c.close();
                }
            }
            Op::Login(u, p) => {
                mark("extra-login");
                if let Some(mut c) = login(id + 50, u, p, tls, &mut cut) {
                    c.close();
                }
            }
            Op::Abort(st, pct) => {
                let c = conn.as_mut().unwrap();
                let b = st.packet();
                let n = (b.len() * *pct as usize / 100).min(b.len());
                let ev = push_ev(id, &cl.user, st);
                let _ = c.send(&b[..n], &mut cut);
                if n < b.len() {
                    // an incomplete statement is never executed
                    cx().hist.remove_tail(ev);
                    mark("abort-partial");
                } else {
                    mark("abort-full");
                    lost_ev(ev);
                }
                if pct % 2 == 0 {
                    sched::sleep_ns(cx().plan.net.delay * 2);
                }
                c.rst();
                conn = None;
            }
            Op::Garbage(b) => {
                let c = conn.as_mut().unwrap();
                if c.send(b, &mut cut).is_ok() {
                    mark("garbage");
                    let (_r, _closed) = c.drain(sched::now() + SEC);
                }
                c.close();
                conn = None;
            }
            Op::Wrong(b) => {
                let c = conn.as_mut().unwrap();
                if c.send(b, &mut cut).is_ok() {
                    mark("wrong-packet");
                    let (r, _) = c.drain(sched::now() + SEC);
                    if !r.is_empty() && r[0] != 0x10 {
                        let t = String::from_utf8_lossy(b).into_owned();
                        viol("bad-accepted", format!("client {id}: {t:?} was answered with {:?}", &r[..r.len().min(40)]));
                    }
                }
                c.close();
                conn = None;
            }
            Op::SlowRead(st, ns) => {
                let c = conn.as_mut().unwrap();
                let ev = push_ev(id, &cl.user, st);
                let r = c.send(&st.packet(), &mut cut);
                sched::sleep_ns(*ns);
                let r = r.and_then(|_| c.response(sched::now() + OP_DEADLINE));
                match r {
                    Ok(r) => done_ev(ev, r),
                    Err(e) => {
                        lost_ev(ev);
                        conn = None;
                        if !failed(id, st, e) {
                            break;
                        }
                    }
                }
            }
            Op::Pipe(sts) => {
                let mut b = vec![];
                let mut evs: Vec<usize> = vec![];
                // without a session, everything is sent right behind the handshake
                let first = conn.is_none().then(|| {
                    let pwd = pwd_now(&cl.user, &cl.pwd);
                    let st = St::Login { u: cl.user.clone(), p: pwd.clone() };
                    (push_ev(id, &cl.user, &st), pwd)
                });
                for st in sts {
                    let ev = push_ev(id, &cl.user, st);
                    if let Some(p) = evs.last() {
                        cx().hist[ev].after = cx().hist[*p].inv;
                    }
                    evs.push(ev);
                    b.extend(st.packet());
                }
                mark("pipelined");
                if let Some((lev, pwd)) = first {
                    mark("pipelined-login");
                    match Cl::login_with(tls, &cl.user, &pwd, &b, &mut cut, sched::now() + OP_DEADLINE) {
                        Ok(c) => {
                            cx().conns.push((c.c, id));
                            done_ev(lev, R::Empty);
                            conn = Some(c);
                        }
                        Err(CE::Denied(x)) => {
                            // nothing of it may be executed
                            mark("login-denied");
                            done_ev(lev, R::Err(x as u16));
                            for ev in &evs {
                                cx().hist.remove_tail(*ev);
                            }
                            denied += 1;
                            if denied > 5 {
                                break;
                            }
                            continue;
                        }
                        Err(e) => {
                            lost_ev(lev);
                            for ev in &evs {
                                lost_ev(*ev);
                            }
                            if !failed(id, &sts[0], e) || !server_alive() || cx().server_dying {
                                break;
                            }
                            continue;
                        }
                    }
                    b.clear();
                }
                let c = conn.as_mut().unwrap();
                let mut r = c.send(&b, &mut cut);
                for (i, ev) in evs.iter().enumerate() {
                    match r.clone().and_then(|_| c.response(sched::now() + OP_DEADLINE)) {
                        Ok(x) => done_ev(*ev, x),
                        Err(e) => {
                            for ev in &evs[i..] {
                                lost_ev(*ev);
                            }
                            r = Err(e.clone());
                            conn = None;
                            if !failed(id, &sts[i], e) {
                                break;
                            }
                            break;
                        }
                    }
                }
                if let Some(c) = &conn {
                    if c.leftover() > 0 {
                        viol("proto", format!("client {id}: {} bytes after the last of {} responses", c.leftover(), sts.len()));
                    }
                } else if !loss_ok() || !server_alive() || cx().server_dying {
                    break;
                }
            }
            Op::Raw(b, end, hs) => {
                let Ok(mut c) = Cl::raw(tls) else { continue };
                mark("raw-conn");
                if tls && *hs {
                    let _ = c.send(b"TLSH", &mut cut);
                }
                let _ = c.send(b, &mut cut);
                match end {
                    0 => c.close(),
                    1 => c.rst(),
                    2 => {
                        let (r, _) = c.drain(sched::now() + 2 * SEC);
                        // (nobody logs in like this)
                        if r.starts_with(&[b'H', 0, 0, 0]) {
                            let t = String::from_utf8_lossy(b).into_owned();
                            viol("bad-accepted", format!("client {id}: the handshake {t:?} was accepted"));
                        }
                        c.close();
                    }
                    _ => silent.push(c),
                }
            }
        }
    }
    if let Some(mut c) = conn {
        c.close();
    }
    for mut c in silent {
        c.close();
    }
}
/// a statement got no answer; false = stop this client
fn failed(id: u32, st: &St, e: CE) -> bool {
    match e {
        CE::Timeout => {
            viol("hang", format!("client {id}: no answer to `{}`: {}", show(st), sched::dump_threads()));
            false
        }
        CE::Proto(s) => {
            viol("proto", format!("client {id}: answer to `{}`: {s}", show(st)));
            false
        }
        e => {
            if !loss_ok() {
                sched::sleep_ns(1_000_000);
            }
            if loss_ok() {
                server_alive() && !cx().server_dying
            } else {
                viol("conn", format!("client {id}: connection lost during `{}`: {e:?}", show(st)));
                false
            }
        }
    }
}
trait Tail {
    fn remove_tail(&mut self, i: usize);
}
impl Tail for Vec<HEv> {
    /// indices must stay valid: turn the event into one that does nothing
    fn remove_tail(&mut self, i: usize) {
        self[i].st = St::Status;
        self[i].resp = None;
    }
}

/* ------------------------------------------------------------------ reading everything back */

#[derive(Clone, Debug, Default)]
struct Seen {
    spaces: BTreeSet<String>,
    users: BTreeSet<String>,
    pwds: BTreeMap<String, String>,
    models: BTreeMap<(String, String), (String, u64, BTreeMap<V, Vec<V>>)>,
}
/// read the whole database over a connection of its own, as part of the history
fn probe(logins: &BTreeMap<String, Vec<String>>) -> Option<Seen> {
    let id = 90000 + cx().rep.boots as u32 * 100 + cx().phase as u32;
    let tls = cx().plan.boot.tls == 1;
    let mut cut = Cut::default();
    let mut c = login(id, ROOT, ROOT_PWD, tls, &mut cut)?;
    mark("probe");
    // statements whose answer nobody waited for may still be running
    if cx().hist[cx().epoch..].iter().any(|e| e.resp.is_none()) {
        sched::sleep_ns(5 * SEC + slack());
    }
    fn q(c: &mut Cl, id: u32, st: &St) -> Option<R> {
        let mut cut = Cut::default();
        let ev = push_ev(id, ROOT, st);
        match c.query(st, &mut cut, sched::now() + OP_DEADLINE) {
            Ok(r) => {
                done_ev(ev, r.clone());
                Some(r)
            }
            Err(e) => {
                lost_ev(ev);
                failed(id, st, e);
                None
            }
        }
    }
    let mut s = Seen::default();
    let R::Str(g) = q(&mut c, id, &St::InspectGlobal)? else {
        viol("resp", "inspect global failed");
        return None;
    };
    let Some((spaces, Some(users))) = parse_global(&g) else {
        viol("resp", format!("inspect global: {g}"));
        return None;
    };
    s.spaces = spaces;
    s.users = users;
    for sp in s.spaces.clone() {
        let r = q(&mut c, id, &St::InspectSpace(sp.clone()))?;
        let R::Str(t) = &r else {
            viol("resp", format!("inspect space {sp}: {}", show_r(&r)));
            return None;
        };
        let Some(ms) = parse_space(t) else {
            viol("resp", format!("inspect space {sp}: {t}"));
            return None;
        };
        for m in ms {
            let e = ent(&sp, &m);
            let r = q(&mut c, id, &St::InspectModel(e.clone()))?;
            let parsed = match &r {
                R::Str(t) => parse_model(t),
                _ => None,
            };
            let Some((decl, count)) = parsed else {
                viol("resp", format!("inspect model {sp}.{m}: {}", show_r(&r)));
                return None;
            };
            let r = q(&mut c, id, &St::SelectAll { m: e.clone(), f: None, limit: 100_000 })?;
            let R::Rows(_, rows) = r else {
                viol("resp", format!("select all from {sp}.{m}: {}", show_r(&r)));
                return None;
            };
            let pkpos = decl.trim_matches(|c| c == '{' || c == '}').split(',').position(|x| x.starts_with('*'));
            let Some(pkpos) = pkpos else {
                viol("resp", format!("no primary key in {decl}"));
                return None;
            };
            let mut map = BTreeMap::new();
            for r in rows {
                if let Some(old) = map.insert(r[pkpos].clone(), r) {
                    viol("crash-row", format!("{sp}.{m}: two rows with the key {:?}", old[pkpos]));
                    return None;
                }
            }
            if map.len() as u64 != count {
                viol("resp", format!("{sp}.{m}: inspect says {count} rows, select all returns {}", map.len()));
                return None;
            }
            // the index must agree with the iteration
            let pkname = decl.trim_matches(|c| c == '{' || c == '}').split(',').nth(pkpos).unwrap();
            let pkname = pkname[1..].split(':').next().unwrap().to_string();
            for (k, row) in map.iter().take(4) {
                let r = q(&mut c, id, &St::Select { m: e.clone(), f: None, k: pkname.clone(), v: k.clone() })?;
                if r != R::Row(row.clone()) {
                    viol(
                        "resp",
                        format!("{sp}.{m}: select of {k:?} gives {} but select all gives {row:?}", show_r(&r)),
                    );
                    return None;
                }
            }
            s.models.insert((sp.clone(), m), (decl, count, map));
        }
    }
    c.close();
    for (u, ps) in logins {
        if !s.users.contains(u) {
            continue;
        }
        for p in ps {
            if let Some(mut c) = login(id + 50, u, p, tls, &mut cut) {
                c.close();
                s.pwds.insert(u.clone(), p.clone());
                break;
            }
            if !cx().rep.viols.is_empty() {
                return None;
            }
        }
        if !s.pwds.contains_key(u) {
            viol("crash-ddl", format!("user {u} can not log in after the restart"));
            return None;
        }
    }
    Some(s)
}

/* ------------------------------------------------------------------ judging */

#[derive(Clone, Copy, PartialEq, Debug)]
enum JudgeAt {
    Crash,
    Term,
    Live,
}
/// what may be found after the next start
struct Pending {
    db0: Db,
    h: Vec<HEv>,
    at: JudgeAt,
    /// statements that failed may still turn out to be on disk
    unsettled: bool,
    /// events acknowledged before this time are on disk, for each model
    flushed: BTreeMap<(String, String), u64>,
    what: String,
}
/// one explanation of the history before the restart
struct Witness {
    /// candidates for spaces, models, users (and the full state when nothing is lost)
    finals: Vec<Db>,
    /// state before each event of the witness, and the witness
    states: Vec<Db>,
    order: Vec<HEv>,
    unknown: Vec<HEv>,
    /// more unanswered statements than can be tried
    over: bool,
    flushed: BTreeMap<(String, String), u64>,
}
static mut PENDING: Option<Pending> = None;

/// nothing was ever acknowledged
fn pend_fresh() {
    let d = cx().db0.clone();
    unsafe {
        PENDING = Some(Pending { db0: d, h: vec![], at: JudgeAt::Crash, unsettled: false, flushed: BTreeMap::new(), what: "Boot".into() })
    }
}

fn mark_tolerance(h: &mut [HEv]) -> Option<(u64, u64)> {
    let f = fs::fs();
    let (Some(a), Some(b)) = (f.first_err, f.last_err) else { return None };
    let hz = heal_horizon();
    for e in h.iter_mut() {
        // (statements for a row depend on the files of its model only)
        let (a, b) = match &e.st {
            St::Insert { m, .. } | St::InsertMap { m, .. } | St::Update { m, .. } | St::Delete { m, .. } => {
                match model_errs(m.0.as_deref(), &m.1) {
                    Some(x) => x,
                    None => {
                        e.tolerant = false;
                        continue;
                    }
                }
            }
            _ => (a, b),
        };
        e.tolerant = e.t_ret >= a && e.t_inv <= b.saturating_add(hz);
    }
    Some((a, b))
}
/// the first and the last error that hit the files of this model
fn model_errs(s: Option<&str>, m: &str) -> Option<(u64, u64)> {
    let (a, b) = (s.map(|s| format!("data/{s}-")), format!("/mdl_{m}-"));
    let v = fs::fs().path_errs.iter().filter(|(p, _)| p.contains(&b) && a.as_ref().map_or(true, |a| p.contains(a)));
    v.map(|x| *x.1).reduce(|x, y| (x.0.min(y.0), x.1.max(y.1)))
}
/// what was acknowledged before this time must be on disk
fn flushed_by(at: JudgeAt, now: u64, errs: Option<(u64, u64)>) -> u64 {
    let hz = flush_horizon();
    // (nothing is flushed periodically any more once the server was asked to stop: the rest is left
    // to the stop itself)
    let now = cx().term_at.map_or(now, |t| t.min(now));
    match (at, errs) {
        (JudgeAt::Term, None) => u64::MAX,
        (_, None) => now.saturating_sub(hz),
        (_, Some((a, b))) => {
            let healed = now.saturating_sub(heal_horizon() + hz);
            if at == JudgeAt::Term && b <= healed {
                u64::MAX
            } else if b <= healed {
                healed
            } else {
                a.min(now).saturating_sub(hz)
            }
        }
    }
}
fn judge_epoch_live() {
    judge_epoch(JudgeAt::Live)
}
/// the server is gone (or about to be): check the history so far and work out what must survive
fn judge_epoch(at: JudgeAt) {
    let c = cx();
    if c.plan.mode != Mode::Crash {
        return;
    }
    let mut h: Vec<HEv> = c.hist[c.epoch..].to_vec();
    let errs = mark_tolerance(&mut h);
    // login attempts without an answer do not matter
    h.retain(|e| !(e.resp.is_none() && !e.st.is_write()));
    let now = sched::now();
    match lin::check(&c.db0, &h, 300_000) {
        Lin::Unknown => {
            mark("lin-unknown");
            unsafe { PENDING = None };
        }
        Lin::Fail(s, _) => viol("resp", s),
        Lin::Ok { .. } => {
            if at == JudgeAt::Live {
                return;
            }
            let t_flushed = flushed_by(at, now, errs);
            let models: BTreeSet<(String, String)> = (c.db0.models.keys().cloned())
                .chain(h.iter().filter_map(|e| match &e.st {
                    St::CreateModel { m, .. } => m.0.clone().map(|s| (s, m.1.clone())),
                    _ => None,
                }))
                .collect();
            let flushed = models.into_iter().map(|m| (flushed_by(at, now, model_errs(Some(&m.0), &m.1)), m)).map(|x| (x.1, x.0)).collect();
            unsafe {
                let unsettled = at == JudgeAt::Crash || t_flushed != u64::MAX;
                PENDING = Some(Pending { db0: c.db0.clone(), h, at, unsettled, flushed, what: format!("{at:?}") })
            }
        }
    }
}
fn witness(p: &Pending, order: &[usize], states: &[Db]) -> Witness {
    let mut st = vec![p.db0.clone()];
    st.extend(states.iter().cloned());
    let ord: Vec<HEv> = order.iter().map(|i| p.h[*i].clone()).collect();
    let mut unknown: Vec<HEv> = vec![];
    for (i, e) in p.h.iter().enumerate() {
        let failed = e.tolerant && e.resp == Some(R::Err(0)) && e.st.is_write() && p.unsettled;
        if (e.resp.is_none() && !order.contains(&i)) || failed {
            unknown.push(e.clone());
        }
    }
    // a refused write of a row has no effect, one that was never answered may have
    unknown.sort_by_key(|e| e.resp.is_some() && is_dml(&e.st));
    let sure = unknown.iter().filter(|e| e.resp.is_none() || !is_dml(&e.st)).count();
    let over = sure > 7;
    unknown.truncate(sure.clamp(5, 7));
    // which subsets of the unanswered statements took effect
    let last = st.last().unwrap().clone();
    let mut finals = vec![];
    fn perms(d: &Db, unknown: &[HEv], used: u32, finals: &mut Vec<Db>) {
        if !finals.contains(d) {
            finals.push(d.clone());
        }
        for (i, e) in unknown.iter().enumerate() {
            if used >> i & 1 == 0 {
                let mut n = d.clone();
                n.apply(e.client, &e.user, &e.st);
                if n != *d {
                    perms(&n, unknown, used | 1 << i, finals);
                }
            }
        }
    }
    perms(&last, &unknown, 0, &mut finals);
    Witness { finals, states: st, order: ord, unknown, over, flushed: p.flushed.clone() }
}

fn is_dml(st: &St) -> bool {
    matches!(st, St::Insert { .. } | St::InsertMap { .. } | St::Update { .. } | St::Delete { .. })
}
fn row_of(db: &Db, m: &(String, String), k: &V) -> Option<Vec<V>> {
    let md = db.models.get(m)?;
    md.rows.get(k).map(|r| md.cells(k, r))
}
fn alters(st: &St, m: &(String, String)) -> bool {
    match st {
        St::AlterAdd { m: x, .. } | St::AlterRemove { m: x, .. } | St::AlterUpdate { m: x, .. } => {
            x.0.as_ref() == Some(&m.0) && x.1 == m.1
        }
        _ => false,
    }
}
fn touches(st: &St, m: &(String, String), k: &V) -> bool {
    let (e, key) = match st {
        St::Insert { m, v } => (m, v.iter().collect::<Vec<_>>()),
        St::InsertMap { m, v } => (m, v.iter().map(|x| &x.1).collect()),
        St::Update { m, v, .. } | St::Delete { m, v, .. } => (m, vec![v]),
        _ => return false,
    };
    e.1 == m.1 && e.0.as_ref().map_or(true, |s| *s == m.0) && key.contains(&k)
}

fn shape_error(p: &Pending, w: &Witness, seen: &Seen) -> String {
    let d = &w.finals[0];
    let want = format!(
        "spaces {:?} users {:?} models {:?}",
        d.spaces.keys().collect::<Vec<_>>(),
        d.users.keys().collect::<Vec<_>>(),
        d.models.iter().map(|(k, v)| format!("{}.{}{}", k.0, k.1, v.decl())).collect::<Vec<_>>()
    );
    let got = format!(
        "spaces {:?} users {:?} models {:?}",
        seen.spaces,
        seen.users,
        seen.models.iter().map(|(k, v)| format!("{}.{}{}", k.0, k.1, v.0)).collect::<Vec<_>>()
    );
    format!(
        "after {}: found {got}; expected {want}{}",
        p.what,
        if w.finals.len() > 1 { " (or with unanswered statements applied)" } else { "" }
    )
}
/// the server is up again: compare what it serves with what may be there, and continue from it
#[allow(static_mut_refs)]
fn recover_check() -> bool {
    let Some(p) = (unsafe { PENDING.take() }) else {
        // the history was too hard to judge: end here
        mark("no-verdict");
        return false;
    };
    cx().epoch = cx().hist.len();
    // everyone who may be a user
    let mut who: BTreeMap<String, Vec<String>> =
        p.db0.users.iter().map(|(u, p)| (u.clone(), vec![p.clone()])).collect();
    for e in &p.h {
        if let St::CreateUser { u, p } | St::AlterUser { u, p } = &e.st {
            who.entry(u.clone()).or_default().push(p.clone());
        }
    }
    // (the start made it the configured one)
    who.insert(ROOT.into(), vec![cx().root_pw.clone()]);
    let Some(seen) = probe(&who) else { return false };
    let mut err: Option<(u8, String)> = None;
    let mut chosen = None;
    let mut over = false;
    let res = lin::check_with(&p.db0, &p.h, 300_000, &mut |order, states| {
        let w = witness(&p, order, states);
        if w.over {
            over = true;
            return true;
        }
        // 1. spaces, models, users
        let shape = |d: &Db| {
            seen.spaces.iter().eq(d.spaces.keys())
                && seen.users.iter().eq(d.users.keys())
                && seen.pwds.iter().all(|(u, p)| u == ROOT || d.users.get(u) == Some(p))
                && seen.models.keys().eq(d.models.keys())
                && seen.models.iter().all(|(k, v)| d.models[k].decl() == v.0)
        };
        let mut cands: Vec<&Db> = w.finals.iter().filter(|d| shape(d)).collect();
        if cands.is_empty() {
            if err.is_none() {
                err = Some((0, shape_error(&p, &w, &seen)));
            }
            return false;
        }
        // 2. rows
        cands.truncate(8);
        for d in &cands {
            match rows_ok(&w, d, &seen) {
                Ok(()) => {
                    chosen = Some((*d).clone());
                    return true;
                }
                Err(e) => {
                    if err.as_ref().map_or(true, |e| e.0 == 0) {
                        err = Some((1, format!("after {}: {e}", p.what)))
                    }
                }
            }
        }
        false
    });
    if over || matches!(res, Lin::Unknown) {
        mark("no-verdict");
        return false;
    }
    let Some(mut d) = chosen else {
        let (k, e) = err.unwrap_or((0, "no explanation".into()));
        viol(if k == 0 { "crash-ddl" } else { "crash-row" }, e);
        return false;
    };
    // continue from what was found
    for (k, v) in &seen.models {
        let md = Rc::make_mut(d.models.get_mut(k).unwrap());
        let names: Vec<String> = md.fields.iter().map(|f| f.name.clone()).collect();
        md.rows.clear();
        for (key, cells) in &v.2 {
            let row = names
                .iter()
                .cloned()
                .zip(cells.iter().cloned())
                .filter(|(n, _)| *n != md.pk)
                .collect();
            md.rows.insert(key.clone(), row);
        }
    }
    d.cs.clear();
    d.users.insert(ROOT.into(), cx().root_pw.clone());
    // orders and outcomes that nothing served so far tells apart
    let envs: Vec<(&HEv, &String)> = p
        .h
        .iter()
        .filter_map(|e| match &e.st {
            St::AlterSpace { s, .. } => Some((e, s)),
            _ => None,
        })
        .collect();
    for (e, s) in &envs {
        let vague = matches!(e.resp, None | Some(R::Err(0)))
            || envs.iter().any(|(o, t)| t == s && o.inv != e.inv && o.inv < e.ret && e.inv < o.ret);
        if vague && d.spaces.contains_key(*s) {
            d.fuzzy.insert(s.to_string());
        }
    }
    let c = cx();
    c.db0 = d;
    mark(&format!("recovered-after-{}", p.what));
    true
}

fn rows_ok(p: &Witness, fin: &Db, seen: &Seen) -> Result<(), String> {
    for (m, (_, _, rows)) in &seen.models {
        // where the present incarnation of the model begins
        let mut begin = 0;
        for (i, e) in p.order.iter().enumerate() {
            let made = match &e.st {
                St::CreateModel { m: x, .. } => x.0.as_ref() == Some(&m.0) && x.1 == m.1,
                _ => false,
            };
            if made && !p.states[i].models.contains_key(m) && p.states[i + 1].models.contains_key(m) {
                begin = i + 1;
            }
        }
        let mut keys: BTreeSet<V> = rows.keys().cloned().collect();
        for s in &p.states[begin..] {
            if let Some(md) = s.models.get(m) {
                keys.extend(md.rows.keys().cloned());
            }
        }
        if let Some(md) = fin.models.get(m) {
            keys.extend(md.rows.keys().cloned());
        }
        for k in keys {
            // the last write of this row that must be on disk
            let mut from = begin;
            for (i, e) in p.order.iter().enumerate() {
                if i + 1 > from
                    && e.t_ret <= p.flushed.get(m).copied().unwrap_or(0)
                    && e.resp.is_some()
                    && touches(&e.st, m, &k)
                    && row_of(&p.states[i], m, &k) != row_of(&p.states[i + 1], m, &k)
                {
                    from = i + 1;
                }
            }
            let got = rows.get(&k);
            let mut cand: Vec<Option<Vec<V>>> = vec![];
            for i in from..p.states.len() {
                let mut d = p.states[i].clone();
                if !d.models.contains_key(m) {
                    cand.push(None);
                    continue;
                }
                for e in &p.order[i..] {
                    if alters(&e.st, m) && !matches!(e.resp, Some(R::Err(_))) {
                        d.apply(e.client, ROOT, &e.st);
                    }
                }
                // any of the unanswered ones may have taken effect
                let unk: Vec<&HEv> = p.unknown.iter().filter(|e| alters(&e.st, m)).collect();
                for mask in 0..1u32 << unk.len() {
                    let mut d = d.clone();
                    for (j, e) in unk.iter().enumerate() {
                        if mask >> j & 1 == 1 {
                            d.apply(e.client, ROOT, &e.st);
                        }
                    }
                    let r = row_of(&d, m, &k);
                    if !cand.contains(&r) {
                        cand.push(r);
                    }
                }
            }
            // unanswered writes
            for d in &p.finals {
                cand.push(row_of(d, m, &k));
            }
            if !cand.iter().any(|c| c.as_ref() == got) {
                cand.dedup();
                return Err(format!(
                    "{}.{} key {k:?}: found {got:?}, allowed {}",
                    m.0,
                    m.1,
                    lin::cut(&format!("{cand:?}"), 800)
                ));
            }
        }
    }
    Ok(())
}

fn judge_lin() {
    let c = cx();
    let mut h = c.hist.clone();
    mark_tolerance(&mut h);
    h.retain(|e| !(e.resp.is_none() && !e.st.is_write()));
    match lin::check(&Db::fresh(ROOT_PWD), &h, 400_000) {
        Lin::Ok { order, states } => {
            mark("lin-ok");
            for (n, spaces, models) in cx().stops.clone() {
                let d = match order.iter().rposition(|i| *i < n) {
                    Some(i) => states[i].clone(),
                    None => Db::fresh(ROOT_PWD),
                };
                if (spaces, models) != (d.spaces.len(), d.models.len()) {
                    viol(
                        "leftover",
                        format!(
                            "after a clean stop the data directory holds {spaces} spaces and {models} models, but there are {} and {}",
                            d.spaces.len(),
                            d.models.len()
                        ),
                    );
                }
                mark("leftovers-checked");
            }
        }
        Lin::Unknown => mark("lin-unknown"),
        Lin::Fail(s, ph) => {
            // did the damage happen at a restart?
            let restarted = (0..ph).any(|i| c.plan.phases.get(i).map_or(false, |p| p.end != End::Keep));
            let class = if restarted { "restart" } else { "resp" };
            viol(class, s)
        }
    }
}

/* ------------------------------------------------------------------ damage to stored bytes */

fn tamper(ts: &[Tamper]) {
    for t in ts {
        let mut img = fs::snapshot();
        let files: Vec<String> = img
            .iter()
            .filter(|(p, c)| {
                p.contains(&t.path)
                    && !p.ends_with(".pem")
                    && *p != ".sky_pid"
                    && c.as_ref().map_or(false, |c| !c.is_empty())
            })
            .map(|x| x.0.clone())
            .collect();
        if files.is_empty() {
            continue;
        }
        let f = files[t.nth as usize % files.len()].clone();
        if t.kind == 5 {
            // (a start without a GNS is a first start)
            if f.contains("btlog") {
                img.remove(&f);
                fs::count("lost-file", 1);
                note(format!("removed {f}"));
                fs::install(&img);
            }
            continue;
        }
        let c = img.get_mut(&f).unwrap().as_mut().unwrap();
        // of a file that wasn't closed the last event may be unfinished: what is in front of it is not
        let open = cx().unclean;
        let end = if open {
            fs::fs().synced_sizes.get(&f).map_or(0, |x| x.1 as usize).min(c.len())
        } else {
            c.len()
        };
        if end == 0 {
            continue;
        }
        let pos = (end as u64 * t.pos as u64 / 10_000) as usize % end;
        let before = c.clone();
        // (a block that reaches into the final event is what a crash leaves behind)
        let bend = if open { end } else { end.saturating_sub(120) };
        let n = 1 + t.arg as usize % 64;
        let bpos = pos.min(bend.saturating_sub(n));
        let block = bpos..(bpos + n).min(bend);
        // (where bytes move, the last event is damaged as well)
        let kind = if open && (3..=4).contains(&t.kind) { 0 } else { t.kind };
        match kind {
            0 => c[pos] ^= 1 << (t.arg % 8),
            1 => c.truncate(pos),
            2 => c[block].fill(0),
            3 => {
                c.remove(pos);
            }
            4 => c.insert(pos, t.arg as u8),
            6 => {
                // garbage
                let mut x = t.arg as u64 | 1 << 40;
                for b in &mut c[block] {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *b = (x >> 33) as u8;
                }
            }
            7 => {
                // a block that was written to the wrong place
                let from = (t.arg as usize * 7919) % (bend.saturating_sub(n).max(1));
                let src: Vec<u8> = c[from..(from + block.len()).min(bend)].to_vec();
                let at = block.start;
                c[at..at + src.len()].copy_from_slice(&src);
            }
            8 => {
                // two bits
                let p = pos.min(bend.saturating_sub(1));
                c[p] ^= 1 << (t.arg % 8);
                c[(p + 1 + t.arg as usize) % bend.max(1)] ^= 1 << (t.arg / 8 % 8);
            }
            10 => c[block].fill(0xff),
            13 => {
                // the kind of an event
                let at: Vec<usize> = (32..bend.saturating_sub(8))
                    .filter(|p| c[*p] < 16 && c[p - 16] != 0 && c[p - 14..*p].iter().chain(&c[p + 1..p + 8]).all(|b| *b == 0))
                    .collect();
                if !at.is_empty() {
                    let p = at[t.pos as usize % at.len()];
                    c[p] ^= 1 << (t.arg % 4);
                    note(format!("event {} at {} is now {}", before[p], p, c[p]));
                }
            }
            11 | 12 => {
                // numbers that are far too large, where the file has small ones
                let is_len = |c: &[u8], p: usize| p + 8 <= bend && c[p] != 0 && c[p + 2..p + 8].iter().all(|b| *b == 0);
                let at = pos.min(bend.saturating_sub(1));
                if let Some(mut p) = (at..bend).chain(0..at).find(|p| is_len(c, *p)) {
                    for i in 0..if kind == 11 { 1 } else { 2 + t.arg as usize % 3 } {
                        if i == 0 || is_len(c, p) {
                            match t.arg / 4 % 4 {
                                0 => c[p + 7] |= 0x80,
                                1 => c[p..p + 8].fill(0xff),
                                2 => c[p + 1..p + 8].fill(0xff),
                                _ => c[p + 4] = 1,
                            }
                        }
                        p += 8;
                    }
                }
            }
            _ => {
                // a block's bytes in another order
                c[block].reverse();
            }
        }
        if before != *c {
            let name = ["bit-flip", "cut-file", "zero-block", "drop-byte", "insert-byte", "", "garbage-block", "misplaced-block", "two-bit-flips", "reversed-block", "ones-block", "huge-number", "huge-numbers", "event-kind"];
            fs::count(name[kind.min(13) as usize], 1);
            mark(if open { "damage-after-crash" } else { "damage-after-close" });
            note(format!("tampered with {f} at {pos}"));
        }
        fs::install(&img);
    }
}

#[allow(static_mut_refs)]
pub fn verbose() -> bool {
    unsafe { CTX.as_ref().map_or(false, |c| c.verbose) }
}
#[allow(static_mut_refs)]
pub fn harness_error(s: String) {
    unsafe {
        match CTX.as_mut() {
            Some(c) => {
                c.rep.harness.get_or_insert(s);
            }
            None => eprintln!("{s}"),
        }
    }
}
