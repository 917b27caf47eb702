//! tokio's API over the simulator: every task is a simulated thread, timers are simulated time, sockets
//! are the simulated network. Channels, semaphores and I/O utilities are tokio's own code.
pub use tokio_real::{join, pin, select, try_join};
pub mod io {
    pub use tokio_real::io::*;
}
pub mod sync {
    pub use tokio_real::sync::*;
}
pub use task::spawn;

pub mod task {
    use simrt::{
        proc::{self, TaskCell},
        sched::{self, Pt},
    };
    use std::{
        any::Any,
        cell::{Cell, RefCell},
        future::Future,
        panic::{catch_unwind, AssertUnwindSafe},
        pin::Pin,
        sync::{
            atomic::{AtomicBool, Ordering},
            Arc, Mutex,
        },
        task::{Context, Poll, Wake, Waker},
    };

    /// (the flag: while the task is polled its thread may block for other reasons)
    struct W(usize, AtomicBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.1.store(true, Ordering::Relaxed);
            sched::wake(self.0)
        }
    }
    struct Worker;
    impl Drop for Worker {
        fn drop(&mut self) {
            proc::worker_release()
        }
    }
    /// drive a future on the calling simulated thread; None if the task is cancelled first
    pub(crate) fn drive<F: Future>(f: F, cell: Option<&TaskCell>) -> Option<F::Output> {
        let mut f = Box::pin(f);
        let woken = Arc::new(W(sched::cur(), AtomicBool::new(false)));
        let waker = Waker::from(woken.clone());
        let mut cx = Context::from_waker(&waker);
        loop {
            if cell.map_or(false, |c| c.cancelled.get()) {
                return None;
            }
            if cell.is_some() {
                proc::worker_acquire();
            }
            let r = if cell.is_some() {
                // (a task that panics leaves its thread as well)
                let _w = Worker;
                f.as_mut().poll(&mut cx)
            } else {
                f.as_mut().poll(&mut cx)
            };
            if let Poll::Ready(r) = r {
                return Some(r);
            }
            if cell.map_or(false, |c| c.cancelled.get()) {
                return None;
            }
            while !woken.1.swap(false, Ordering::Relaxed) && !cell.map_or(false, |c| c.cancelled.get()) {
                sched::block("task", None);
            }
            sched::yield_point(Pt::Task);
        }
    }

    struct St<T> {
        res: Option<Result<T, JoinError>>,
        waker: Option<Waker>,
    }
    pub struct JoinHandle<T> {
        st: Arc<Mutex<St<T>>>,
        cell: Arc<TaskCell>,
    }
    pub struct JoinError(Option<Box<dyn Any + Send>>);
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.0.is_none()
        }
        pub fn is_panic(&self) -> bool {
            self.0.is_some()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            self.0.expect("not a panic")
        }
    }
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match &self.0 {
                None => write!(f, "JoinError::Cancelled"),
                Some(p) => write!(f, "JoinError::Panic({})", proc::panic_text(p)),
            }
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for JoinError {}
    impl From<JoinError> for std::io::Error {
        fn from(e: JoinError) -> Self {
            std::io::Error::other(format!("{e:?}"))
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            if !self.cell.blocking {
                self.cell.cancelled.set(true);
                sched::wake(self.cell.tid.get());
            }
        }
        pub fn is_finished(&self) -> bool {
            self.cell.done.get()
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.st.lock().unwrap();
            if let Some(r) = s.res.take() {
                return Poll::Ready(r);
            }
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    impl<T> Unpin for JoinHandle<T> {}

    fn launch<T: Send + 'static>(
        name: &str,
        blocking: bool,
        run: impl FnOnce(&TaskCell) -> Option<T> + Send + 'static,
    ) -> JoinHandle<T> {
        let st = Arc::new(Mutex::new(St {
            res: None,
            waker: None,
        }));
        let cell = Arc::new(TaskCell {
            tid: Cell::new(0),
            cancelled: Cell::new(false),
            done: Cell::new(false),
            blocking,
            waiters: RefCell::new(vec![]),
        });
        let g = sched::cur_group();
        if g != 0 {
            let p = proc::get(g);
            p.tasks.retain(|t| !t.done.get());
            p.tasks.push(cell.clone());
        }
        let (st2, cell2) = (st.clone(), cell.clone());
        let tid = sched::spawn(name, g, move || {
            let r = if blocking && cell2.cancelled.get() {
                Ok(None) // never started: the runtime was shut down first
            } else {
                catch_unwind(AssertUnwindSafe(|| run(&cell2)))
            };
            let r = match r {
                Ok(Some(v)) => Ok(v),
                Ok(None) => Err(JoinError(None)),
                Err(e) => Err(JoinError(Some(e))),
            };
            let w = {
                let mut s = st2.lock().unwrap();
                s.res = Some(r);
                s.waker.take()
            };
            // a result nobody waits for is dropped with the handle
            drop(st2);
            cell2.done.set(true);
            if let Some(w) = w {
                w.wake();
            }
            for t in cell2.waiters.take() {
                sched::wake(t);
            }
        });
        cell.tid.set(tid);
        JoinHandle { st, cell }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        sched::yield_point(Pt::Task);
        let f = Box::pin(f);
        launch("task", false, move |c| drive(f, Some(c)))
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        sched::yield_point(Pt::Task);
        launch("blocking", true, move |_| Some(f()))
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        proc::worker_release();
        let r = f();
        proc::worker_acquire();
        r
    }
    pub async fn yield_now() {
        sched::spin()
    }
}

pub mod runtime {
    use crate::task;
    use simrt::{proc, sched};
    use std::{future::Future, io};
    pub struct Builder;
    impl Builder {
        pub fn new_multi_thread() -> Self {
            Builder
        }
        pub fn new_current_thread() -> Self {
            Builder
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            Ok(Runtime { _p: () })
        }
    }
    pub struct Runtime {
        _p: (),
    }
    impl Runtime {
        pub fn new() -> io::Result<Self> {
            Ok(Runtime { _p: () })
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            task::drive(f, None).unwrap()
        }
        pub fn spawn<F>(&self, f: F) -> task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            task::spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            task::spawn_blocking(f)
        }
        pub fn shutdown_background(self) {}
        pub fn handle(&self) -> Handle {
            Handle
        }
    }
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self {
            Handle
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            task::drive(f, None).unwrap()
        }
        pub fn spawn<F>(&self, f: F) -> task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            task::spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            task::spawn_blocking(f)
        }
    }
    impl Drop for Runtime {
        fn drop(&mut self) {
            let g = sched::cur_group();
            if g == 0 {
                return;
            }
            // tasks are dropped at their next suspension point, running blocking jobs are waited for
            loop {
                let next = proc::get(g).tasks.iter().find(|t| !t.done.get()).cloned();
                let Some(_) = next else { break };
                for t in proc::get(g).tasks.clone() {
                    if !t.done.get() && !t.cancelled.get() {
                        t.cancelled.set(true);
                        if !t.blocking {
                            sched::wake(t.tid.get());
                        }
                    }
                }
                let t = next.unwrap();
                t.waiters.borrow_mut().push(sched::cur());
                if !t.done.get() {
                    sched::block("runtime shutdown", None);
                }
            }
        }
    }
}

pub mod time {
    pub use std::time::Duration;
    use simrt::sched::{self, Action};
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll},
    };
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self {
            Self(sched::now())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(sched::now() - self.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
    }
    impl Instant {
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            Some(*self + d)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0).map(Duration::from_nanos)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
    impl std::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0.saturating_sub(d.as_nanos() as u64))
        }
    }
    impl std::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0.saturating_add(d.as_nanos() as u64))
        }
    }
    pub struct Sleep {
        until: u64,
        key: Option<(u64, u64)>,
    }
    pub fn sleep(d: Duration) -> Sleep {
        sleep_until(Instant::now() + d)
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        // timers have millisecond granularity
        let ms = 1_000_000;
        Sleep {
            until: i.0.div_ceil(ms).saturating_mul(ms),
            key: None,
        }
    }
    impl Sleep {
        pub fn reset(mut self: Pin<&mut Self>, i: Instant) {
            self.until = i.0;
        }
        pub fn is_elapsed(&self) -> bool {
            sched::now() >= self.until
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if let Some(k) = self.key.take() {
                sched::cancel_timer(k);
            }
            if sched::now() >= self.until {
                return Poll::Ready(());
            }
            self.key = Some(sched::add_timer(
                self.until,
                Action::Waker(cx.waker().clone()),
            ));
            Poll::Pending
        }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            if let Some(k) = self.key.take() {
                sched::cancel_timer(k);
            }
        }
    }
    pub mod error {
        #[derive(Debug, PartialEq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
        impl From<Elapsed> for std::io::Error {
            fn from(_: Elapsed) -> Self {
                std::io::ErrorKind::TimedOut.into()
            }
        }
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(sleep(d));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match s.as_mut().poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
    }
    pub async fn timeout_at<F: Future>(i: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        timeout(i - Instant::now(), f).await
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum MissedTickBehavior {
        Burst,
        Delay,
        Skip,
    }
    pub struct Interval {
        next: u64,
        every: u64,
        missed: MissedTickBehavior,
    }
    pub fn interval_at(i: Instant, d: Duration) -> Interval {
        Interval {
            next: i.0,
            every: d.as_nanos() as u64,
            missed: MissedTickBehavior::Burst,
        }
    }
    pub fn interval(d: Duration) -> Interval {
        Interval {
            next: sched::now(),
            every: d.as_nanos() as u64,
            missed: MissedTickBehavior::Burst,
        }
    }
    impl Interval {
        pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
            self.missed = m;
        }
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.every)
        }
        pub fn reset(&mut self) {
            self.next = sched::now() + self.every;
        }
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            sleep_until(Instant(at)).await;
            self.next = match self.missed {
                MissedTickBehavior::Burst => at + self.every,
                MissedTickBehavior::Delay => sched::now() + self.every,
                MissedTickBehavior::Skip => at + ((sched::now() - at) / self.every + 1) * self.every,
            };
            Instant(at)
        }
    }
}

pub mod net {
    use simrt::{
        net as sim,
        sched::{self, Pt},
    };
    use std::{
        future::poll_fn,
        io,
        net::{Ipv4Addr, SocketAddr},
        pin::Pin,
        task::{Context, Poll},
    };
    use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};
    pub trait ToSocketAddrs {
        fn port(&self) -> io::Result<u16>;
    }
    impl ToSocketAddrs for (&str, u16) {
        fn port(&self) -> io::Result<u16> {
            Ok(self.1)
        }
    }
    impl ToSocketAddrs for (String, u16) {
        fn port(&self) -> io::Result<u16> {
            Ok(self.1)
        }
    }
    impl ToSocketAddrs for SocketAddr {
        fn port(&self) -> io::Result<u16> {
            Ok(SocketAddr::port(self))
        }
    }
    impl ToSocketAddrs for &str {
        fn port(&self) -> io::Result<u16> {
            self.rsplit(':')
                .next()
                .and_then(|p| p.parse().ok())
                .ok_or(io::ErrorKind::InvalidInput.into())
        }
    }
    impl ToSocketAddrs for String {
        fn port(&self) -> io::Result<u16> {
            ToSocketAddrs::port(&self.as_str())
        }
    }
    pub struct TcpListener {
        l: usize,
    }
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<Self> {
            Ok(Self {
                l: sim::bind(a.port()?)?,
            })
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let c = poll_fn(|cx| sim::poll_accept(self.l, cx)).await?;
            Ok((
                TcpStream { c },
                SocketAddr::from((Ipv4Addr::LOCALHOST, 40000 + (c % 20000) as u16)),
            ))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr::from((Ipv4Addr::LOCALHOST, 2003)))
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            sim::close_listener(self.l)
        }
    }
    #[derive(Debug)]
    pub struct TcpStream {
        c: usize,
    }
    impl TcpStream {
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(SocketAddr::from((
                Ipv4Addr::LOCALHOST,
                40000 + (self.c % 20000) as u16,
            )))
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            sim::server_close(self.c)
        }
    }
    impl AsyncRead for TcpStream {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            b: &mut ReadBuf<'_>,
        ) -> Poll<io::Result<()>> {
            sched::yield_point(Pt::Net);
            if b.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            let un = b.initialize_unfilled();
            match sim::poll_read(self.c, cx, un) {
                Poll::Ready(Ok(n)) => {
                    b.advance(n);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncWrite for TcpStream {
        fn poll_write(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            b: &[u8],
        ) -> Poll<io::Result<usize>> {
            sched::yield_point(Pt::Net);
            sim::poll_write(self.c, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            sim::server_shutdown(self.c);
            Poll::Ready(Ok(()))
        }
    }
}

pub mod fs {
    use crate::task::spawn_blocking;
    use std::{fs, io, path::Path};
    macro_rules! f {
        ($($n:ident -> $t:ty;)*) => {
            $(pub async fn $n(p: impl AsRef<Path>) -> io::Result<$t> {
                let p = p.as_ref().to_owned();
                spawn_blocking(move || fs::$n(p)).await?
            })*
        };
    }
    f! { remove_file -> (); remove_dir -> (); remove_dir_all -> (); create_dir -> (); create_dir_all -> (); read -> Vec<u8>; read_to_string -> String; metadata -> fs::Metadata; }
    pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
        let (a, b) = (a.as_ref().to_owned(), b.as_ref().to_owned());
        spawn_blocking(move || fs::rename(a, b)).await?
    }
    pub async fn write(a: impl AsRef<Path>, b: impl AsRef<[u8]>) -> io::Result<()> {
        let (a, b) = (a.as_ref().to_owned(), b.as_ref().to_owned());
        spawn_blocking(move || fs::write(a, b)).await?
    }
}

pub mod signal {
    pub mod unix {
        use std::{
            future::poll_fn,
            io,
            task::{Context, Poll},
        };
        #[derive(Clone, Copy, Debug)]
        pub struct SignalKind(i32);
        impl SignalKind {
            pub const fn interrupt() -> Self {
                Self(2)
            }
            pub const fn terminate() -> Self {
                Self(15)
            }
            pub const fn hangup() -> Self {
                Self(1)
            }
            pub const fn quit() -> Self {
                Self(3)
            }
            pub const fn from_raw(n: i32) -> Self {
                Self(n)
            }
        }
        #[derive(Debug)]
        pub struct Signal(i32);
        pub fn signal(k: SignalKind) -> io::Result<Signal> {
            if let Some(p) = simrt::proc::current() {
                p.sigs.entry(k.0).or_default();
            }
            Ok(Signal(k.0))
        }
        impl Signal {
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
                let Some(p) = simrt::proc::current() else {
                    return Poll::Pending;
                };
                let s = p.sigs.entry(self.0).or_default();
                if s.pending {
                    s.pending = false;
                    return Poll::Ready(Some(()));
                }
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            pub async fn recv(&mut self) -> Option<()> {
                poll_fn(|cx| self.poll_recv(cx)).await
            }
        }
    }
}
