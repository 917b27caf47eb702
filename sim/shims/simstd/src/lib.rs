//! `std` as the simulated server sees it: atomics, threads, process and environment belong to the
//! simulator, everything else is real.
pub use ::std::*;
pub mod sync;
pub use simcore::hint;
pub mod process {
    pub use ::std::process::*;
    pub fn exit(c: i32) -> ! {
        simrt::proc::exit(c)
    }
    pub fn abort() -> ! {
        simrt::proc::abort()
    }
}
pub mod env {
    pub use ::std::env::*;
    pub fn args() -> ::std::vec::IntoIter<String> {
        match simrt::proc::current() {
            Some(p) => p.args.clone().into_iter(),
            None => ::std::env::args().collect::<Vec<_>>().into_iter(),
        }
    }
    pub fn var<K: AsRef<::std::ffi::OsStr>>(_k: K) -> Result<String, VarError> {
        Err(VarError::NotPresent)
    }
}
pub mod thread {
    pub use ::std::thread::{
        available_parallelism, current, panicking, park_timeout, AccessError, LocalKey, Result, Thread, ThreadId,
    };
    use ::std::{
        sync::{Arc, Mutex},
        time::Duration,
    };
    pub fn yield_now() {
        simrt::spin()
    }
    pub fn sleep(d: Duration) {
        if simrt::in_sim() {
            simrt::sched::sleep_ns(d.as_nanos() as u64)
        } else {
            ::std::thread::sleep(d)
        }
    }
    struct St<T> {
        res: Option<Result<T>>,
        waiters: Vec<usize>,
    }
    pub struct JoinHandle<T>(Arc<Mutex<St<T>>>);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            loop {
                {
                    let mut s = self.0.lock().unwrap();
                    if let Some(r) = s.res.take() {
                        return r;
                    }
                    s.waiters.push(simrt::sched::cur());
                }
                simrt::block("join", None);
            }
        }
        pub fn is_finished(&self) -> bool {
            self.0.lock().unwrap().res.is_some()
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let s = Arc::new(Mutex::new(St {
            res: None,
            waiters: vec![],
        }));
        let s2 = s.clone();
        simrt::spawn("thread", simrt::cur_group(), move || {
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
            let mut g = s2.lock().unwrap();
            g.res = Some(r);
            for w in ::std::mem::take(&mut g.waiters) {
                simrt::wake(w);
            }
        });
        JoinHandle(s)
    }
    pub struct Builder;
    impl Builder {
        pub fn new() -> Self {
            Self
        }
        pub fn name(self, _: String) -> Self {
            self
        }
        pub fn stack_size(self, _: usize) -> Self {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
    }
}
