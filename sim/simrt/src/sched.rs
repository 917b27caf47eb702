//! Cooperative scheduler: simulated threads are OS threads of which exactly one runs at a time. The
//! next one to run is always chosen by the run's PRNG; simulated time only moves here.
use crate::rng::Rng;
use std::{
    cell::Cell,
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU32, Ordering},
};

pub type Tid = usize;
pub type Group = u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Runnable,
    Blocked(&'static str),
    Idle, // pooled OS thread waiting for a job
    Dead,
}

/// classes of scheduling points
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(usize)]
pub enum Pt {
    Lock = 0,
    Unlock = 1,
    Atomic = 2,
    Epoch = 3,
    Io = 4,
    Net = 5,
    Task = 6,
}
pub const N_PT: usize = 7;

#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// preemption probability per scheduling point class, out of 2^32
    pub p: [u32; N_PT],
    /// 0 = uniformly random next thread, otherwise: priorities with this many change points
    pub pct_depth: u32,
    /// expected number of steps (for placing change points)
    pub pct_len: u64,
    /// maximum simulated ns per scheduling point
    pub tick: u64,
    pub max_steps: u64,
    /// probability (2^32) at a preemption that the preempted thread is stalled for a while
    pub p_stall: u32,
    pub stall_len: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        Self {
            p: [1 << 29; N_PT],
            pct_depth: 0,
            pct_len: 2000,
            tick: 1000,
            max_steps: 2_000_000,
            p_stall: 0,
            stall_len: 0,
        }
    }
}

struct Thr {
    name: String,
    group: Group,
    st: St,
    word: &'static AtomicU32,
    token: bool,
    timed_out: bool,
    deadline_key: Option<(u64, u64)>,
    prio: u64,
    stalled_until: u64,
    job: Option<Box<dyn FnOnce() + Send>>,
}

pub enum Action {
    Wake(Tid),
    Waker(std::task::Waker),
    Call(Box<dyn FnOnce()>),
}

#[derive(Default, Clone, Debug)]
pub struct SchedStats {
    pub steps: u64,
    pub switches: u64,
    pub time_jumps: u64,
    pub stalls: u64,
    pub threads: u64,
    pub trace_hash: u64,
}

pub struct Sched {
    thr: Vec<Thr>,
    cur: Tid,
    pub rng: Rng,
    pub cfg: SchedCfg,
    pub now: u64,
    seq: u64,
    timers: BTreeMap<(u64, u64), Action>,
    pub stats: SchedStats,
    change_points: Vec<u64>,
    low_prio: u64,
    pub on_fatal: Option<fn(&str, String) -> !>,
}

static mut SCHED: *mut Sched = std::ptr::null_mut();
thread_local! { static CUR: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[inline]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}
/// is the calling OS thread a simulated thread (and so the holder of the baton)?
#[inline]
pub fn in_sim() -> bool {
    CUR.try_with(|c| c.get()).unwrap_or(usize::MAX) != usize::MAX
}
pub fn cur() -> Tid {
    CUR.with(|c| c.get())
}
pub fn cur_group() -> Group {
    let t = CUR.try_with(|c| c.get()).unwrap_or(usize::MAX);
    if t == usize::MAX {
        0
    } else {
        s().thr[t].group
    }
}
pub fn cur_name() -> String {
    if in_sim() {
        s().thr[cur()].name.clone()
    } else {
        String::from("?")
    }
}
pub fn now() -> u64 {
    if in_sim() {
        s().now
    } else {
        0
    }
}
pub fn rng() -> &'static mut Rng {
    &mut s().rng
}

fn futex_wait(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        unsafe {
            libc::syscall(
                libc::SYS_futex,
                w as *const _ as *const u32,
                libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
                0u32,
                std::ptr::null::<u8>(),
                0usize,
                0u32,
            );
        }
    }
    w.store(0, Ordering::Relaxed);
}
fn futex_wake(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            w as *const _ as *const u32,
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            1u32,
            0usize,
            0usize,
            0u32,
        );
    }
}

/// make the calling OS thread simulated thread 0
pub fn init(seed: u64, cfg: SchedCfg, on_fatal: fn(&str, String) -> !) {
    let mut rng = Rng::new(seed);
    let mut change_points = vec![];
    for _ in 0..cfg.pct_depth {
        change_points.push(rng.below(cfg.pct_len.max(1)));
    }
    change_points.sort();
    change_points.reverse();
    let sched = Box::new(Sched {
        thr: vec![],
        cur: 0,
        rng,
        cfg,
        now: 0,
        seq: 0,
        timers: BTreeMap::new(),
        stats: SchedStats::default(),
        change_points,
        low_prio: 1 << 32,
        on_fatal: Some(on_fatal),
    });
    unsafe { SCHED = Box::into_raw(sched) };
    let p = s().rng.next() | (1 << 40);
    s().thr.push(Thr {
        name: "driver".into(),
        group: 0,
        st: St::Runnable,
        word: Box::leak(Box::new(AtomicU32::new(0))),
        token: false,
        timed_out: false,
        deadline_key: None,
        prio: p,
        stalled_until: 0,
        job: None,
    });
    CUR.with(|c| c.set(0));
}

pub fn fatal(kind: &str, detail: String) -> ! {
    let f = s().on_fatal.expect("fatal before init");
    f(kind, detail)
}

pub fn dump_threads() -> String {
    let mut r = String::new();
    for (i, t) in s().thr.iter().enumerate() {
        if matches!(t.st, St::Idle | St::Dead) {
            continue;
        }
        r.push_str(&format!("[{} g{} {} {:?}] ", i, t.group, t.name, t.st));
    }
    r
}

pub fn spawn<F: FnOnce() + Send + 'static>(name: &str, group: Group, f: F) -> Tid {
    let sc = s();
    sc.stats.threads += 1;
    let prio = sc.rng.next() | (1 << 40);
    if let Some(i) = sc
        .thr
        .iter()
        .position(|t| t.st == St::Idle && t.group == group)
    {
        let t = &mut sc.thr[i];
        t.name = name.into();
        t.st = St::Runnable;
        t.token = false;
        t.prio = prio;
        t.job = Some(Box::new(f));
        return i;
    }
    let tid = sc.thr.len();
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    sc.thr.push(Thr {
        name: name.into(),
        group,
        st: St::Runnable,
        word,
        token: false,
        timed_out: false,
        deadline_key: None,
        prio,
        stalled_until: 0,
        job: Some(Box::new(f)),
    });
    let r = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            CUR.with(|c| c.set(tid));
            futex_wait(word);
            loop {
                let job = s().thr[tid].job.take();
                if let Some(job) = job {
                    let _ = catch_unwind(AssertUnwindSafe(job));
                }
                s().thr[tid].st = St::Idle;
                reschedule();
            }
        });
    if r.is_err() {
        fatal("harness", "cannot spawn OS thread".into());
    }
    tid
}

fn fire_due() {
    loop {
        let sc = s();
        let Some((&k, _)) = sc.timers.iter().next() else {
            return;
        };
        if k.0 > sc.now {
            return;
        }
        let a = sc.timers.remove(&k).unwrap();
        run_action(a, k);
    }
}
fn run_action(a: Action, k: (u64, u64)) {
    match a {
        Action::Wake(t) => {
            let th = &mut s().thr[t];
            if th.deadline_key == Some(k) {
                th.deadline_key = None;
                if let St::Blocked(_) = th.st {
                    th.st = St::Runnable;
                    th.timed_out = true;
                }
            }
        }
        Action::Waker(w) => w.wake(),
        Action::Call(f) => f(),
    }
}

fn pick() -> Tid {
    loop {
        fire_due();
        let sc = s();
        let mut cand: [Tid; 64] = [0; 64];
        let mut n = 0usize;
        let mut stalled: Option<Tid> = None;
        let step = sc.stats.steps;
        for (i, t) in sc.thr.iter().enumerate() {
            if t.st == St::Runnable {
                if t.stalled_until > step {
                    if stalled.map(|x| sc.thr[x].stalled_until > t.stalled_until) != Some(false) {
                        stalled = Some(i);
                    }
                    continue;
                }
                if n < 64 {
                    cand[n] = i;
                    n += 1;
                }
            }
        }
        if n == 0 {
            if let Some(x) = stalled {
                // a stalled thread can also be slower than what is on its way on the wire
                match sc.timers.iter().next() {
                    Some((&k, _)) if k.0 < sc.now + 20_000_000 && sc.rng.below(8) != 0 => {
                        sc.now = sc.now.max(k.0);
                        continue;
                    }
                    _ => {}
                }
                sc.thr[x].stalled_until = 0;
                return x;
            }
            // nothing can run: jump to the next timer
            match sc.timers.iter().next() {
                Some((&k, _)) => {
                    if k.0 > sc.now {
                        sc.now = k.0;
                        sc.stats.time_jumps += 1;
                    }
                    continue;
                }
                None => fatal("deadlock", dump_threads()),
            }
        }
        if n == 1 {
            return cand[0];
        }
        if sc.cfg.pct_depth > 0 {
            let mut best = cand[0];
            for &c in &cand[1..n] {
                if sc.thr[c].prio > sc.thr[best].prio {
                    best = c;
                }
            }
            return best;
        }
        return cand[sc.rng.idx(n)];
    }
}

/// give up the baton; returns when the calling thread is scheduled again
fn reschedule() {
    let me = cur();
    let next = pick();
    if next == me {
        return;
    }
    let sc = s();
    sc.stats.switches += 1;
    sc.stats.trace_hash = sc
        .stats
        .trace_hash
        .rotate_left(5)
        .wrapping_mul(0x9E3779B97F4A7C15)
        ^ (next as u64)
        ^ (sc.stats.steps << 20);
    sc.cur = next;
    let wn = sc.thr[next].word;
    let wm = sc.thr[me].word;
    futex_wake(wn);
    futex_wait(wm);
}

fn step() {
    let sc = s();
    sc.stats.steps += 1;
    if sc.cfg.tick > 0 {
        sc.now += sc.rng.below(sc.cfg.tick) + 1;
    }
    if sc.stats.steps > sc.cfg.max_steps {
        fatal("step-limit", dump_threads());
    }
}

/// a scheduling point: the scheduler may run somebody else here
pub fn yield_point(pt: Pt) {
    if !in_sim() {
        return;
    }
    let me = cur();
    step();
    let sc = s();
    if sc.thr[me].st == St::Dead {
        reschedule(); // never comes back
    }
    if sc.cfg.pct_depth > 0 {
        if let Some(&cp) = sc.change_points.last() {
            if cp <= sc.stats.steps {
                sc.change_points.pop();
                sc.low_prio -= 1;
                sc.thr[me].prio = sc.low_prio;
                if sc.cfg.stall_len > 0 {
                    sc.thr[me].stalled_until = sc.stats.steps + sc.rng.below(sc.cfg.stall_len) + 1;
                    sc.stats.stalls += 1;
                }
            }
        }
        fire_due();
        reschedule();
        return;
    }
    let p = sc.cfg.p[pt as usize];
    if sc.rng.chance32(p) {
        if sc.cfg.p_stall > 0 && sc.rng.chance32(sc.cfg.p_stall) {
            let l = sc.rng.below(sc.cfg.stall_len.max(1)) + 1;
            sc.thr[me].stalled_until = sc.stats.steps + l;
            sc.stats.stalls += 1;
        }
        reschedule();
    }
}

/// the calling thread is spinning or politely yielding: let others run
pub fn spin() {
    if !in_sim() {
        return;
    }
    step();
    let me = cur();
    let sc = s();
    if sc.cfg.pct_depth > 0 {
        sc.low_prio -= 1;
        sc.thr[me].prio = sc.low_prio;
    }
    reschedule();
}

/// Block until woken (or until the deadline); returns true if the deadline passed. May wake spuriously.
pub fn block(reason: &'static str, deadline: Option<u64>) -> bool {
    let me = cur();
    step();
    let sc = s();
    if sc.thr[me].token {
        sc.thr[me].token = false;
        if sc.thr[me].st != St::Dead {
            yield_point(Pt::Task);
            return false;
        }
    }
    if sc.thr[me].st != St::Dead {
        sc.thr[me].st = St::Blocked(reason);
        sc.thr[me].timed_out = false;
        if let Some(d) = deadline {
            let k = (d.max(sc.now), sc.next_seq());
            sc.timers.insert(k, Action::Wake(me));
            sc.thr[me].deadline_key = Some(k);
        }
    }
    reschedule();
    let sc = s();
    if let Some(k) = sc.thr[me].deadline_key.take() {
        sc.timers.remove(&k);
    }
    sc.thr[me].token = false;
    sc.thr[me].timed_out
}

pub fn wake(t: Tid) {
    let th = &mut s().thr[t];
    match th.st {
        St::Blocked(_) => th.st = St::Runnable,
        St::Runnable => th.token = true,
        _ => {}
    }
}

pub fn sleep_ns(ns: u64) {
    let until = s().now.saturating_add(ns);
    while s().now < until {
        block("sleep", Some(until));
    }
}

pub fn add_timer(at: u64, a: Action) -> (u64, u64) {
    let sc = s();
    let k = (at.max(sc.now), sc.next_seq());
    sc.timers.insert(k, a);
    k
}
pub fn cancel_timer(k: (u64, u64)) {
    s().timers.remove(&k);
}
pub fn after(ns: u64, f: impl FnOnce() + 'static) {
    let at = s().now.saturating_add(ns);
    add_timer(at, Action::Call(Box::new(f)));
}

impl Sched {
    fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
}

/// no thread of the group ever runs again. If the caller belongs to it, this does not return
/// once the caller reaches `die_if_dead`.
pub fn kill_group(g: Group) {
    for t in s().thr.iter_mut() {
        if t.group == g {
            t.st = St::Dead;
        }
    }
}
pub fn die_if_dead() {
    if in_sim() && s().thr[cur()].st == St::Dead {
        reschedule();
        unreachable!("a dead thread was scheduled");
    }
}
pub fn group_alive(g: Group) -> bool {
    s().thr
        .iter()
        .any(|t| t.group == g && !matches!(t.st, St::Dead | St::Idle))
}
pub fn thread_state(t: Tid) -> St {
    s().thr[t].st
}
