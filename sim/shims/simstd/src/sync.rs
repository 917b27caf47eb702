//! `std::sync` over the simulator's locks (poisoning is not modelled: locks are never poisoned)
pub use ::std::sync::{
    Arc, Barrier, BarrierWaitResult, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError,
    TryLockResult, Weak,
};
pub use simcore::sync::atomic;
use simrt::sync as raw;
use ::std::{
    cell::UnsafeCell,
    fmt,
    marker::PhantomData,
    ops::{Deref, DerefMut},
    time::Duration,
};

pub struct Mutex<T: ?Sized> {
    r: raw::RawMutex,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    _n: PhantomData<*mut ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self {
            r: raw::RawMutex::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.r.lock();
        Ok(MutexGuard {
            l: self,
            _n: PhantomData,
        })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.r.try_lock() {
            Ok(MutexGuard {
                l: self,
                _n: PhantomData,
            })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.r.unlock()
    }
}

pub struct RwLock<T: ?Sized> {
    r: raw::RawRwLock,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _n: PhantomData<*mut ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _n: PhantomData<*mut ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        Self {
            r: raw::RawRwLock::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.r.lock_shared();
        Ok(RwLockReadGuard {
            l: self,
            _n: PhantomData,
        })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.r.lock_exclusive();
        Ok(RwLockWriteGuard {
            l: self,
            _n: PhantomData,
        })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.r.try_lock_shared() {
            Ok(RwLockReadGuard {
                l: self,
                _n: PhantomData,
            })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.r.try_lock_exclusive() {
            Ok(RwLockWriteGuard {
                l: self,
                _n: PhantomData,
            })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.r.unlock_shared()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.r.unlock_exclusive()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar(raw::RawCondvar);
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Self(raw::RawCondvar::new())
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.0.wait(&g.l.r, None);
        Ok(g)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            self.0.wait(&g.l.r, None);
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let ok = self.0.wait(
            &g.l.r,
            Some(simrt::sched::now().saturating_add(d.as_nanos() as u64)),
        );
        Ok((g, WaitTimeoutResult(!ok)))
    }
    pub fn notify_one(&self) {
        self.0.notify_one();
    }
    pub fn notify_all(&self) {
        self.0.notify_all();
    }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use super::{Arc, Condvar, Mutex};
    use ::std::{collections::VecDeque, time::Duration};
    struct Ch<T> {
        m: Mutex<St<T>>,
        c: Condvar,
    }
    struct St<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
        cap: usize,
    }
    pub struct Sender<T>(Arc<Ch<T>>);
    pub struct SyncSender<T>(Arc<Ch<T>>);
    pub struct Receiver<T>(Arc<Ch<T>>);
    fn mk<T>(cap: usize) -> Arc<Ch<T>> {
        Arc::new(Ch {
            m: Mutex::new(St {
                q: VecDeque::new(),
                senders: 1,
                receiver: true,
                cap,
            }),
            c: Condvar::new(),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(usize::MAX);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(n.max(1));
        (SyncSender(c.clone()), Receiver(c))
    }
    impl<T> Ch<T> {
        fn send(&self, v: T) -> Result<(), SendError<T>> {
            let mut g = self.m.lock().unwrap();
            while g.receiver && g.q.len() >= g.cap {
                g = self.c.wait(g).unwrap();
            }
            if !g.receiver {
                return Err(SendError(v));
            }
            g.q.push_back(v);
            drop(g);
            self.c.notify_all();
            Ok(())
        }
    }
    macro_rules! snd {
        ($t:ident) => {
            impl<T> $t<T> {
                pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                    self.0.send(v)
                }
            }
            impl<T> Clone for $t<T> {
                fn clone(&self) -> Self {
                    self.0.m.lock().unwrap().senders += 1;
                    Self(self.0.clone())
                }
            }
            impl<T> Drop for $t<T> {
                fn drop(&mut self) {
                    self.0.m.lock().unwrap().senders -= 1;
                    self.0.c.notify_all();
                }
            }
        };
    }
    snd!(Sender);
    snd!(SyncSender);
    impl<T> SyncSender<T> {
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            let mut g = self.0.m.lock().unwrap();
            if !g.receiver {
                return Err(TrySendError::Disconnected(v));
            }
            if g.q.len() >= g.cap {
                return Err(TrySendError::Full(v));
            }
            g.q.push_back(v);
            drop(g);
            self.0.c.notify_all();
            Ok(())
        }
    }
    impl<T> Receiver<T> {
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(|| self.recv().ok())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(|| self.try_recv().ok())
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Receiver")
        }
    }
    impl<T> ::std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(v) = g.q.pop_front() {
                    drop(g);
                    self.0.c.notify_all();
                    return Ok(v);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
                g = self.0.c.wait(g).unwrap();
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            let end = simrt::sched::now().saturating_add(d.as_nanos() as u64);
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(v) = g.q.pop_front() {
                    drop(g);
                    self.0.c.notify_all();
                    return Ok(v);
                }
                if g.senders == 0 {
                    return Err(RecvTimeoutError::Disconnected);
                }
                let left = end.saturating_sub(simrt::sched::now());
                if left == 0 {
                    return Err(RecvTimeoutError::Timeout);
                }
                g = self.0.c.wait_timeout(g, Duration::from_nanos(left)).unwrap().0;
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap();
            match g.q.pop_front() {
                Some(v) => {
                    drop(g);
                    self.0.c.notify_all();
                    Ok(v)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.m.lock().unwrap().receiver = false;
            self.0.c.notify_all();
        }
    }
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Send for SyncSender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
}
