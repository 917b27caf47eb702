//! Runs plans in child processes, several at a time.
use crate::{exec::Report, plan::Plan};
use std::{
    io::{Read, Write},
    os::unix::process::CommandExt,
    process::{Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

static NDIR: AtomicU64 = AtomicU64::new(0);
fn base() -> String {
    static B: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let pid = std::process::id();
        for b in ["/dev/shm", "/tmp"] {
            let d = format!("{b}/skysim-{pid:08}");
            if std::fs::create_dir_all(&d).is_ok() && std::fs::write(format!("{d}/probe"), b"x").is_ok() {
                let _ = std::fs::remove_file(format!("{d}/probe"));
                return d;
            }
        }
        panic!("no scratch directory");
    })
    .clone()
}
pub fn cleanup() {
    let b = base();
    if b.contains("/skysim-") {
        let _ = std::fs::remove_dir_all(b);
    }
}

pub enum Out {
    Ok(Report),
    /// the process died or did not finish: signal or description
    Crash(String),
    Timeout,
}

pub fn run(p: &Plan, verbose: bool, limit: Duration) -> Out {
    let dir = format!("{}/{:08}", base(), NDIR.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let r = run_in(p, &dir, verbose, limit);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn run_in(p: &Plan, dir: &str, verbose: bool, limit: Duration) -> Out {
    let mut c = Command::new("/proc/self/exe");
    c.arg0("skysim").arg("child").arg(dir);
    if verbose {
        c.arg("-v");
    }
    c.env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            // never outlive the parent
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return Out::Crash(format!("cannot start: {e}")),
    };
    let mut si = ch.stdin.take().unwrap();
    let js = serde_json::to_vec(p).unwrap();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let pid = ch.id() as i32;
    let start = Instant::now();
    let killed = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let k2 = killed.clone();
    let wd = std::thread::spawn(move || {
        if rx.recv_timeout(limit).is_err() && start.elapsed() >= limit {
            k2.store(true, Ordering::SeqCst);
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    });
    let et = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let _ = si.write_all(&js);
    drop(si);
    let mut out = Vec::new();
    let _ = so.read_to_end(&mut out);
    let st = ch.wait();
    let _ = tx.send(());
    let _ = wd.join();
    let err = et.join().unwrap_or_default();
    if killed.load(Ordering::SeqCst) {
        return Out::Timeout;
    }
    match serde_json::from_slice::<Report>(&out) {
        Ok(r) => Out::Ok(r),
        Err(_) => {
            use std::os::unix::process::ExitStatusExt;
            let s = match st {
                Ok(s) => match s.signal() {
                    Some(x) => format!("signal {x}"),
                    None => format!("exit {:?}", s.code()),
                },
                Err(e) => e.to_string(),
            };
            Out::Crash(format!("{s} {}", err.trim()))
        }
    }
}

/// run many plans on all cores; `next` hands out work, `done` receives results (both under one lock)
pub fn par<S: Send>(
    jobs: usize,
    state: &std::sync::Mutex<S>,
    next: impl Fn(&mut S) -> Option<Plan> + Sync,
    limit: Duration,
    done: impl Fn(&mut S, Plan, Out) + Sync,
) {
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            sc.spawn(|| loop {
                let p = {
                    let mut s = state.lock().unwrap();
                    match next(&mut s) {
                        Some(p) => p,
                        None => return,
                    }
                };
                let r = run(&p, false, limit);
                done(&mut state.lock().unwrap(), p, r);
            });
        }
    });
}
