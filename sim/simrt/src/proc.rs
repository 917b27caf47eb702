//! Simulated server processes: every start of the server is one process ("group" of threads).
use crate::{
    fs, net,
    sched::{self, Group},
};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    /// main returned or process::exit
    Code(i32),
    /// main panicked
    Panic(String),
    /// killed by the simulator
    Killed,
    /// process::abort
    Abort,
}

#[derive(Default)]
pub struct Sig {
    pub pending: bool,
    pub wakers: Vec<std::task::Waker>,
}

pub struct Proc {
    pub group: Group,
    pub args: Vec<String>,
    pub exit: Option<Exit>,
    pub waiters: Vec<usize>,
    pub sigs: BTreeMap<i32, Sig>,
    pub panics: Vec<String>,
    pub log: Vec<(u64, String)>,
    pub stdout: Vec<String>,
    /// live tasks and blocking jobs of the runtime of this process
    pub tasks: Vec<std::sync::Arc<TaskCell>>,
    pub workers: Workers,
}
/// the threads that poll tasks
#[derive(Default)]
pub struct Workers {
    /// 0: as many as there are tasks
    pub limit: usize,
    busy: usize,
    queue: std::collections::VecDeque<usize>,
    granted: Vec<usize>,
}
/// wait for a thread that polls the task of the calling simulated thread
pub fn worker_acquire() {
    let Some(p) = current() else { return };
    if p.workers.limit == 0 {
        return;
    }
    let (g, me) = (p.group, sched::cur());
    if p.workers.busy < p.workers.limit {
        p.workers.busy += 1;
        return;
    }
    p.workers.queue.push_back(me);
    loop {
        sched::block("worker", None);
        let w = &mut get(g).workers;
        if let Some(i) = w.granted.iter().position(|t| *t == me) {
            w.granted.swap_remove(i);
            return;
        }
    }
}
pub fn worker_release() {
    let Some(p) = current() else { return };
    if p.workers.limit == 0 {
        return;
    }
    match p.workers.queue.pop_front() {
        Some(t) => {
            p.workers.granted.push(t);
            sched::wake(t);
        }
        None => p.workers.busy -= 1,
    }
}

pub struct TaskCell {
    pub tid: std::cell::Cell<usize>,
    pub cancelled: std::cell::Cell<bool>,
    pub done: std::cell::Cell<bool>,
    pub blocking: bool,
    pub waiters: std::cell::RefCell<Vec<usize>>,
}
unsafe impl Send for TaskCell {}
unsafe impl Sync for TaskCell {}

static mut PROCS: Vec<Proc> = Vec::new();
#[allow(static_mut_refs)]
pub fn procs() -> &'static mut Vec<Proc> {
    unsafe { &mut PROCS }
}
pub fn get(g: Group) -> &'static mut Proc {
    &mut procs()[g as usize - 1]
}
pub fn current() -> Option<&'static mut Proc> {
    let g = sched::cur_group();
    if g == 0 {
        None
    } else {
        Some(get(g))
    }
}

/// start a process that runs `main` with these arguments
pub fn start(args: Vec<String>, main: fn()) -> Group {
    let g = procs().len() as Group + 1;
    procs().push(Proc {
        group: g,
        args,
        exit: None,
        waiters: vec![],
        sigs: BTreeMap::new(),
        panics: vec![],
        log: vec![],
        stdout: vec![],
        tasks: vec![],
        workers: Workers::default(),
    });
    sched::spawn("main", g, move || {
        let r = std::panic::catch_unwind(main);
        let e = match r {
            Ok(()) => Exit::Code(0),
            Err(e) => Exit::Panic(panic_text(&e)),
        };
        end(g, e);
        sched::die_if_dead();
    });
    g
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// the process ends now, whatever its threads were doing
pub fn end(g: Group, e: Exit) {
    let p = get(g);
    if p.exit.is_some() {
        return;
    }
    p.exit = Some(e);
    sched::kill_group(g);
    fs::close_group(g);
    net::close_group(g);
    for w in std::mem::take(&mut p.waiters) {
        sched::wake(w);
    }
}
pub fn exit(code: i32) -> ! {
    let g = sched::cur_group();
    if g == 0 {
        std::process::exit(code);
    }
    end(g, Exit::Code(code));
    sched::die_if_dead();
    unreachable!()
}
pub fn abort() -> ! {
    let g = sched::cur_group();
    if g == 0 {
        std::process::abort();
    }
    end(g, Exit::Abort);
    sched::die_if_dead();
    unreachable!()
}
/// wait for the process to end; None if the deadline passed
pub fn wait_exit(g: Group, deadline: Option<u64>) -> Option<Exit> {
    loop {
        if let Some(e) = &get(g).exit {
            return Some(e.clone());
        }
        if let Some(d) = deadline {
            if sched::now() >= d {
                return None;
            }
        }
        get(g).waiters.push(sched::cur());
        sched::block("wait for process", deadline);
    }
}
pub fn alive(g: Group) -> bool {
    get(g).exit.is_none()
}
pub fn signal(g: Group, signo: i32) {
    let s = get(g).sigs.entry(signo).or_default();
    s.pending = true;
    for w in std::mem::take(&mut s.wakers) {
        w.wake();
    }
}
