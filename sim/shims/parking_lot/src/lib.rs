//! parking_lot's API over the simulator's locks.
use simrt::sync as raw;
use std::{
    cell::UnsafeCell,
    fmt,
    marker::PhantomData,
    mem,
    ops::{Deref, DerefMut},
};
pub struct Mutex<T: ?Sized> {
    r: raw::RawMutex,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    _n: PhantomData<*mut ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self {
            r: raw::RawMutex::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.r.lock();
        MutexGuard {
            l: self,
            _n: PhantomData,
        }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.r.try_lock().then(|| MutexGuard {
            l: self,
            _n: PhantomData,
        })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.r.is_locked()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.r.unlock()
    }
}

pub struct RwLock<T: ?Sized> {
    r: raw::RawRwLock,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _n: PhantomData<*mut ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _n: PhantomData<*mut ()>,
}
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _n: PhantomData<*mut ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockUpgradableReadGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        Self {
            r: raw::RawRwLock::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
macro_rules! g {
    ($n:ident, $l:expr) => {
        $n {
            l: $l,
            _n: PhantomData,
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.r.lock_shared();
        g!(RwLockReadGuard, self)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.r.lock_shared_recursive();
        g!(RwLockReadGuard, self)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.r.lock_exclusive();
        g!(RwLockWriteGuard, self)
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.r.lock_upgradable();
        g!(RwLockUpgradableReadGuard, self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.r.try_lock_shared().then(|| g!(RwLockReadGuard, self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.r
            .try_lock_exclusive()
            .then(|| g!(RwLockWriteGuard, self))
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        self.r
            .try_lock_upgradable()
            .then(|| g!(RwLockUpgradableReadGuard, self))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.r.is_locked()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.r.is_locked_exclusive()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
macro_rules! guard {
    ($n:ident, $drop:ident) => {
        impl<T: ?Sized> Deref for $n<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.l.v.get() }
            }
        }
        impl<T: ?Sized> Drop for $n<'_, T> {
            fn drop(&mut self) {
                self.l.r.$drop()
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&**self, f)
            }
        }
    };
}
guard!(RwLockReadGuard, unlock_shared);
guard!(RwLockWriteGuard, unlock_exclusive);
guard!(RwLockUpgradableReadGuard, unlock_upgradable);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.r.downgrade();
        g!(RwLockReadGuard, l)
    }
    pub fn downgrade_to_upgradable(s: Self) -> RwLockUpgradableReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.r.downgrade_to_upgradable();
        g!(RwLockUpgradableReadGuard, l)
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.r.upgrade();
        g!(RwLockWriteGuard, l)
    }
    pub fn try_upgrade(s: Self) -> Result<RwLockWriteGuard<'a, T>, Self> {
        if s.l.r.try_upgrade() {
            let l = s.l;
            mem::forget(s);
            Ok(g!(RwLockWriteGuard, l))
        } else {
            Err(s)
        }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        mem::forget(s);
        l.r.downgrade_upgradable();
        g!(RwLockReadGuard, l)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar(raw::RawCondvar);
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Self(raw::RawCondvar::new())
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.0.wait(&g.l.r, None);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: std::time::Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(!self.0.wait(
            &g.l.r,
            Some(simrt::sched::now().saturating_add(d.as_nanos() as u64)),
        ))
    }
    pub fn notify_one(&self) -> bool {
        self.0.notify_one()
    }
    pub fn notify_all(&self) -> usize {
        self.0.notify_all()
    }
}
