//! Raw lock state machines shared by the lock shims. Fairness follows parking_lot: a writer that has
//! announced itself keeps new readers out; at most one upgradable reader.
use crate::sched::{self, Pt, Tid};
use std::cell::UnsafeCell;

pub struct RawMutex {
    s: UnsafeCell<MState>,
}
struct MState {
    locked: bool,
    waiters: Vec<Tid>,
}
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}
impl RawMutex {
    pub const fn new() -> Self {
        Self {
            s: UnsafeCell::new(MState {
                locked: false,
                waiters: Vec::new(),
            }),
        }
    }
    fn st(&self) -> &mut MState {
        unsafe { &mut *self.s.get() }
    }
    pub fn lock(&self) {
        if !sched::in_sim() {
            self.st().locked = true;
            return;
        }
        sched::yield_point(Pt::Lock);
        while self.st().locked {
            self.st().waiters.push(sched::cur());
            sched::block("mutex", None);
        }
        self.st().locked = true;
    }
    pub fn try_lock(&self) -> bool {
        sched::yield_point(Pt::Lock);
        if self.st().locked {
            return false;
        }
        self.st().locked = true;
        true
    }
    pub fn is_locked(&self) -> bool {
        self.st().locked
    }
    pub fn unlock(&self) {
        self.st().locked = false;
        if !sched::in_sim() {
            return;
        }
        for t in std::mem::take(&mut self.st().waiters) {
            sched::wake(t);
        }
        sched::yield_point(Pt::Unlock);
    }
}

pub struct RawRwLock {
    s: UnsafeCell<RwState>,
}
struct RwState {
    readers: u32,
    upgradable: bool,
    writer: bool,
    waiters: Vec<Tid>,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}
impl RawRwLock {
    pub const fn new() -> Self {
        Self {
            s: UnsafeCell::new(RwState {
                readers: 0,
                upgradable: false,
                writer: false,
                waiters: Vec::new(),
            }),
        }
    }
    fn st(&self) -> &mut RwState {
        unsafe { &mut *self.s.get() }
    }
    fn wait(&self, why: &'static str) {
        if !sched::in_sim() {
            panic!("lock contention outside the simulation");
        }
        self.st().waiters.push(sched::cur());
        sched::block(why, None);
    }
    fn wake_all(&self) {
        if sched::in_sim() {
            for t in std::mem::take(&mut self.st().waiters) {
                sched::wake(t);
            }
        }
    }
    pub fn lock_shared(&self) {
        sched::yield_point(Pt::Lock);
        while self.st().writer {
            self.wait("rwlock.read");
        }
        self.st().readers += 1;
    }
    pub fn lock_shared_recursive(&self) {
        sched::yield_point(Pt::Lock);
        while self.st().writer && self.st().readers == 0 {
            self.wait("rwlock.read_recursive");
        }
        self.st().readers += 1;
    }
    pub fn try_lock_shared(&self) -> bool {
        sched::yield_point(Pt::Lock);
        if self.st().writer {
            return false;
        }
        self.st().readers += 1;
        true
    }
    pub fn unlock_shared(&self) {
        self.st().readers -= 1;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn lock_exclusive(&self) {
        sched::yield_point(Pt::Lock);
        while self.st().writer || self.st().upgradable {
            self.wait("rwlock.write");
        }
        self.st().writer = true;
        while self.st().readers > 0 {
            self.wait("rwlock.write(readers)");
        }
    }
    pub fn try_lock_exclusive(&self) -> bool {
        sched::yield_point(Pt::Lock);
        let s = self.st();
        if s.writer || s.upgradable || s.readers > 0 {
            return false;
        }
        s.writer = true;
        true
    }
    pub fn unlock_exclusive(&self) {
        self.st().writer = false;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn lock_upgradable(&self) {
        sched::yield_point(Pt::Lock);
        while self.st().writer || self.st().upgradable {
            self.wait("rwlock.upgradable");
        }
        self.st().upgradable = true;
        self.st().readers += 1;
    }
    pub fn try_lock_upgradable(&self) -> bool {
        sched::yield_point(Pt::Lock);
        let s = self.st();
        if s.writer || s.upgradable {
            return false;
        }
        s.upgradable = true;
        s.readers += 1;
        true
    }
    pub fn unlock_upgradable(&self) {
        self.st().upgradable = false;
        self.st().readers -= 1;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn upgrade(&self) {
        sched::yield_point(Pt::Lock);
        let s = self.st();
        s.upgradable = false;
        s.readers -= 1;
        s.writer = true;
        while self.st().readers > 0 {
            self.wait("rwlock.upgrade");
        }
    }
    pub fn try_upgrade(&self) -> bool {
        sched::yield_point(Pt::Lock);
        let s = self.st();
        if s.readers > 1 {
            return false;
        }
        s.upgradable = false;
        s.readers -= 1;
        s.writer = true;
        true
    }
    pub fn downgrade(&self) {
        self.st().writer = false;
        self.st().readers += 1;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn downgrade_to_upgradable(&self) {
        self.st().writer = false;
        self.st().upgradable = true;
        self.st().readers += 1;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn downgrade_upgradable(&self) {
        self.st().upgradable = false;
        self.wake_all();
        sched::yield_point(Pt::Unlock);
    }
    pub fn is_locked(&self) -> bool {
        self.st().writer || self.st().readers > 0
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.st().writer
    }
}

/// condition variable: a list of waiting threads
pub struct RawCondvar {
    w: UnsafeCell<Vec<Tid>>,
}
unsafe impl Send for RawCondvar {}
unsafe impl Sync for RawCondvar {}
impl RawCondvar {
    pub const fn new() -> Self {
        Self {
            w: UnsafeCell::new(Vec::new()),
        }
    }
    /// wait until notified (or the deadline in simulated ns passes); the mutex is released meanwhile.
    /// Returns false on timeout
    pub fn wait(&self, m: &RawMutex, deadline: Option<u64>) -> bool {
        let me = sched::cur();
        let w = unsafe { &mut *self.w.get() };
        w.push(me);
        m.unlock();
        let mut ok = true;
        loop {
            let w = unsafe { &mut *self.w.get() };
            if !w.contains(&me) {
                break;
            }
            if deadline.map_or(false, |d| sched::now() >= d) {
                w.retain(|t| *t != me);
                ok = false;
                break;
            }
            sched::block("condvar", deadline);
        }
        m.lock();
        ok
    }
    pub fn notify_one(&self) -> bool {
        let w = unsafe { &mut *self.w.get() };
        if w.is_empty() {
            return false;
        }
        let t = w.remove(0);
        sched::wake(t);
        true
    }
    pub fn notify_all(&self) -> usize {
        let w = std::mem::take(unsafe { &mut *self.w.get() });
        let n = w.len();
        for t in w {
            sched::wake(t);
        }
        n
    }
}
