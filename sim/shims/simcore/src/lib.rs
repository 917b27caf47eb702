//! `core` as the simulated server sees it: atomics are scheduling points, everything else is real.
#![no_std]
pub use ::core::*;
pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::{compiler_fence, Ordering};
        use simrt::{yield_point, Pt};
        #[inline]
        fn y() {
            yield_point(Pt::Atomic)
        }
        pub fn fence(o: Ordering) {
            ::core::sync::atomic::fence(o)
        }
        pub fn spin_loop_hint() {
            simrt::spin()
        }
        fn spurious() -> bool {
            simrt::in_sim() && simrt::rng().chance32(1 << 28)
        }
        macro_rules! base {
            ($n:ident, $t:ty) => {
                #[repr(transparent)]
                pub struct $n(::core::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(::core::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        y();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        y();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        y();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(
                        &self,
                        a: $t,
                        b: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        y();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        a: $t,
                        b: $t,
                        s: Ordering,
                        f: Ordering,
                    ) -> Result<$t, $t> {
                        y();
                        if spurious() {
                            return Err(self.0.load(f));
                        }
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        mut g: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub const fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                }
                impl Default for $n {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl ::core::fmt::Debug for $n {
                    fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                        ::core::fmt::Debug::fmt(&self.0, f)
                    }
                }
            };
        }
        macro_rules! ops {
            ($n:ident, $t:ty: $($op:ident)*) => {
                impl $n {
                    $(pub fn $op(&self, v: $t, o: Ordering) -> $t { y(); self.0.$op(v, o) })*
                }
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty;)*) => {
                $(base!($n, $t);
                ops!($n, $t: fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);)*
            };
        }
        int! { AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32; AtomicI32 i32; AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8; }
        base!(AtomicBool, bool);
        ops!(AtomicBool, bool: fetch_and fetch_or fetch_xor fetch_nand);
        #[repr(transparent)]
        pub struct AtomicPtr<T>(::core::sync::atomic::AtomicPtr<T>);
        impl<T> AtomicPtr<T> {
            pub const fn new(v: *mut T) -> Self {
                Self(::core::sync::atomic::AtomicPtr::new(v))
            }
            pub fn load(&self, o: Ordering) -> *mut T {
                y();
                self.0.load(o)
            }
            pub fn store(&self, v: *mut T, o: Ordering) {
                y();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
                y();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(
                &self,
                a: *mut T,
                b: *mut T,
                s: Ordering,
                f: Ordering,
            ) -> Result<*mut T, *mut T> {
                y();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(
                &self,
                a: *mut T,
                b: *mut T,
                s: Ordering,
                f: Ordering,
            ) -> Result<*mut T, *mut T> {
                y();
                if spurious() {
                    return Err(self.0.load(f));
                }
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn get_mut(&mut self) -> &mut *mut T {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> *mut T {
                self.0.into_inner()
            }
        }
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::core::ptr::null_mut())
            }
        }
        impl<T> ::core::fmt::Debug for AtomicPtr<T> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                ::core::fmt::Debug::fmt(&self.0, f)
            }
        }
    }
}
pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() {
        simrt::spin()
    }
}
