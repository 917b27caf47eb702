//! crossbeam-epoch with every access of an `Atomic` turned into a scheduling point. Reclamation is real.
use simrt::{yield_point, Pt};
use std::{fmt, sync::atomic::Ordering};
pub use epoch_real::{
    default_collector, is_pinned, unprotected, Collector, CompareExchangeError, Guard, LocalHandle,
    Owned, Pointable, Pointer, Shared,
};
pub fn pin() -> Guard {
    yield_point(Pt::Epoch);
    epoch_real::pin()
}
#[repr(transparent)]
pub struct Atomic<T: ?Sized + Pointable>(epoch_real::Atomic<T>);
unsafe impl<T: ?Sized + Pointable + Send + Sync> Send for Atomic<T> {}
unsafe impl<T: ?Sized + Pointable + Send + Sync> Sync for Atomic<T> {}
fn y() {
    yield_point(Pt::Epoch)
}
impl<T> Atomic<T> {
    pub fn new(v: T) -> Self {
        Self(epoch_real::Atomic::new(v))
    }
}
impl<T: ?Sized + Pointable> Atomic<T> {
    pub const fn null() -> Self {
        Self(epoch_real::Atomic::null())
    }
    pub fn init(init: T::Init) -> Self {
        Self(epoch_real::Atomic::init(init))
    }
    pub fn load<'g>(&self, o: Ordering, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.load(o, g)
    }
    pub fn load_consume<'g>(&self, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.load_consume(g)
    }
    pub fn store<P: Pointer<T>>(&self, n: P, o: Ordering) {
        y();
        self.0.store(n, o)
    }
    pub fn swap<'g, P: Pointer<T>>(&self, n: P, o: Ordering, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.swap(n, o, g)
    }
    pub fn compare_exchange<'g, P: Pointer<T>>(
        &self,
        c: Shared<'_, T>,
        n: P,
        s: Ordering,
        f: Ordering,
        g: &'g Guard,
    ) -> Result<Shared<'g, T>, CompareExchangeError<'g, T, P>> {
        y();
        self.0.compare_exchange(c, n, s, f, g)
    }
    pub fn compare_exchange_weak<'g, P: Pointer<T>>(
        &self,
        c: Shared<'_, T>,
        n: P,
        s: Ordering,
        f: Ordering,
        g: &'g Guard,
    ) -> Result<Shared<'g, T>, CompareExchangeError<'g, T, P>> {
        y();
        if simrt::in_sim() && simrt::rng().chance32(1 << 28) {
            return Err(CompareExchangeError {
                current: self.0.load(f, g),
                new: n,
            });
        }
        self.0.compare_exchange(c, n, s, f, g)
    }
    pub fn fetch_update<'g, F>(
        &self,
        s: Ordering,
        f: Ordering,
        g: &'g Guard,
        mut func: F,
    ) -> Result<Shared<'g, T>, Shared<'g, T>>
    where
        F: FnMut(Shared<'g, T>) -> Option<Shared<'g, T>>,
    {
        let mut prev = self.load(f, g);
        while let Some(next) = func(prev) {
            match self.compare_exchange_weak(prev, next, s, f, g) {
                Ok(x) => return Ok(x),
                Err(e) => prev = e.current,
            }
        }
        Err(prev)
    }
    pub fn fetch_and<'g>(&self, v: usize, o: Ordering, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.fetch_and(v, o, g)
    }
    pub fn fetch_or<'g>(&self, v: usize, o: Ordering, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.fetch_or(v, o, g)
    }
    pub fn fetch_xor<'g>(&self, v: usize, o: Ordering, g: &'g Guard) -> Shared<'g, T> {
        y();
        self.0.fetch_xor(v, o, g)
    }
    pub unsafe fn into_owned(self) -> Owned<T> {
        self.0.into_owned()
    }
    pub unsafe fn try_into_owned(self) -> Option<Owned<T>> {
        self.0.try_into_owned()
    }
}
impl<T: ?Sized + Pointable> fmt::Debug for Atomic<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized + Pointable> Clone for Atomic<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T: ?Sized + Pointable> Default for Atomic<T> {
    fn default() -> Self {
        Self::null()
    }
}
impl<T: ?Sized + Pointable> From<Owned<T>> for Atomic<T> {
    fn from(v: Owned<T>) -> Self {
        Self(v.into())
    }
}
impl<T> From<Box<T>> for Atomic<T> {
    fn from(v: Box<T>) -> Self {
        Self(v.into())
    }
}
impl<T> From<T> for Atomic<T> {
    fn from(v: T) -> Self {
        Self(v.into())
    }
}
impl<'g, T: ?Sized + Pointable> From<Shared<'g, T>> for Atomic<T> {
    fn from(v: Shared<'g, T>) -> Self {
        Self(v.into())
    }
}
impl<T> From<*const T> for Atomic<T> {
    fn from(v: *const T) -> Self {
        Self(v.into())
    }
}
