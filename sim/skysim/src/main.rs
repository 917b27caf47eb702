//! skysim: deterministic simulation of the whole database server.
mod check;
mod client;
mod exec;
mod gen;
mod lin;
mod minim;
mod model;
mod plan;
mod pool;
mod props;
mod v1;
mod val;

use std::io::{Read, Write};

struct Lg;
impl log::Log for Lg {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.level() <= log::Level::Info {
            if let Some(p) = simrt::proc::current() {
                if p.log.len() < 400 {
                    p.log.push((simrt::sched::now(), format!("{}: {}", r.level(), r.args())));
                }
            }
        }
    }
    fn flush(&self) {}
}
static LG: Lg = Lg;

/// same addresses in every process: run without address space randomisation
fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}

fn child(dir: &str, verbose: bool) -> ! {
    // one allocator arena, so that addresses do not depend on thread timing
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let plan: plan::Plan = serde_json::from_str(&s).expect("plan");
    drop(s);
    let _ = log::set_logger(&LG);
    log::set_max_level(log::LevelFilter::Info);
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or("panic".into());
        let loc = i.location().map(|l| {
            let f = l.file();
            let f = f.find("server/src/").map(|i| &f[i..]).unwrap_or(f);
            format!("{f}:{}", l.line())
        });
        let t = format!("{m} at {}", loc.unwrap_or_default());
        match simrt::proc::current() {
            Some(p) => {
                let bt = if exec::verbose() { format!("\n{}", std::backtrace::Backtrace::force_capture()) } else { "".into() };
                p.panics.push(format!("{t} in thread {}", simrt::sched::cur_name()));
                p.log.push((simrt::sched::now(), format!("PANIC {t}{bt}")));
            }
            None => exec::harness_error(format!("harness panic: {t}")),
        }
    }));
    exec::run(plan, dir, verbose, 1)
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|x| x.as_str()).unwrap_or("");
    if cmd == "child" {
        no_aslr();
        child(&a[1], a.iter().any(|x| x == "-v"));
    }
    let code = match cmd {
        // one generated run, in full
        "run" => {
            let p = gen::plan(&a[1], a[2].parse().unwrap());
            check::show_run(&p, a.iter().any(|x| x == "-v"))
        }
        "gen" => {
            let p = gen::plan(&a[1], a[2].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "replay" => {
            let p: plan::Plan = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            check::replay(&p, a.iter().any(|x| x == "-v"))
        }
        "soak" => check::soak(
            &a[1],
            a[2].parse().unwrap(),
            arg(&a, "--seed").map_or(1, |x| x.parse().unwrap()),
            a.iter().any(|x| x == "--min"),
        ),
        "selftest" => check::selftest(
            arg(&a, "--n").map_or(40, |x| x.parse().unwrap()),
            arg(&a, "--seed").map_or(1, |x| x.parse().unwrap()),
        ),
        "check" => check::check(
            &arg(&a, "--prop").expect("--prop"),
            &arg(&a, "--tier").unwrap_or("quick".into()),
            arg(&a, "--seed").map_or(1, |x| x.parse().unwrap_or(1)),
            arg(&a, "--out").unwrap_or("/verif".into()),
            arg(&a, "--time").map(|x| x.parse().unwrap()),
        ),
        _ => {
            eprintln!("usage: skysim run|gen|replay|soak|selftest|check ...");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
