//! Stand-in for parking_lot whose locks are scheduling points of a controlled scheduler.
//! Threads that are not controlled use the locks in the ordinary way.
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub mod sched;

struct Raw(AtomicIsize);

impl Raw {
    const fn new() -> Self {
        Raw(AtomicIsize::new(0))
    }
    fn addr(&self) -> usize {
        self as *const Raw as usize
    }
    fn try_ex(&self) -> bool {
        self.0.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn try_sh(&self) -> bool {
        self.0
            .fetch_update(SeqCst, SeqCst, |x| if x >= 0 { Some(x + 1) } else { None })
            .is_ok()
    }
    fn wait(&self, f: impl Fn() -> bool) {
        sched::point();
        while !f() {
            if !sched::block(self.addr()) {
                std::thread::yield_now();
            }
        }
        // others can see that the lock is taken
        sched::point();
    }
    fn ex(&self) {
        self.wait(|| self.try_ex())
    }
    fn sh(&self) {
        self.wait(|| self.try_sh())
    }
    fn once(&self, f: impl Fn() -> bool) -> bool {
        sched::point();
        let r = f();
        if r {
            sched::point();
        }
        r
    }
    fn un_ex(&self) {
        self.0.store(0, SeqCst);
        sched::wake(self.addr());
        sched::point();
    }
    fn un_sh(&self) {
        self.0.fetch_sub(1, SeqCst);
        sched::wake(self.addr());
        sched::point();
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<'a, T: ?Sized + Sync> Sync for MutexGuard<'a, T> {}

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex {
            raw: Raw::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.ex();
        MutexGuard(self)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if self.raw.once(|| self.raw.try_ex()) {
            Some(MutexGuard(self))
        } else {
            None
        }
    }
    /// under control, time does not pass
    pub fn try_lock_for(&self, d: Duration) -> Option<MutexGuard<'_, T>> {
        if sched::controlled() {
            return self.try_lock();
        }
        let t = Instant::now();
        loop {
            if let Some(g) = self.try_lock() {
                return Some(g);
            }
            if t.elapsed() >= d {
                return None;
            }
            std::thread::yield_now();
        }
    }
    pub fn try_lock_until(&self, t: Instant) -> Option<MutexGuard<'_, T>> {
        self.try_lock_for(t.saturating_duration_since(Instant::now()))
    }
    pub fn is_locked(&self) -> bool {
        sched::point();
        self.raw.0.load(SeqCst) != 0
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.try_lock() {
            Some(g) => f.debug_struct("Mutex").field("data", &&*g).finish(),
            None => f.write_str("Mutex { data: <locked> }"),
        }
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMutexGuard<'a, U> {
        let raw = &s.0.raw;
        let v = f(unsafe { &mut *s.0.v.get() }) as *mut U;
        std::mem::forget(s);
        MappedMutexGuard {
            raw,
            v,
            _p: std::marker::PhantomData,
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
        s.0.raw.un_ex();
        let r = f();
        s.0.raw.ex();
        r
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ())
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        self.0.raw.un_ex()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct MappedMutexGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    v: *mut T,
    _p: std::marker::PhantomData<&'a mut T>,
}
impl<'a, T: ?Sized> Deref for MappedMutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.v }
    }
}
impl<'a, T: ?Sized> DerefMut for MappedMutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.v }
    }
}
impl<'a, T: ?Sized> Drop for MappedMutexGuard<'a, T> {
    fn drop(&mut self) {
        self.raw.un_ex()
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
/// excludes writers and other upgradable readers; here: everybody
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(&'a RwLock<T>);

pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::new(v)
}

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock {
            raw: Raw::new(),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.sh();
        RwLockReadGuard(self)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.ex();
        RwLockWriteGuard(self)
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.raw.ex();
        RwLockUpgradableReadGuard(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if self.raw.once(|| self.raw.try_sh()) {
            Some(RwLockReadGuard(self))
        } else {
            None
        }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if self.raw.once(|| self.raw.try_ex()) {
            Some(RwLockWriteGuard(self))
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.try_read() {
            Some(g) => f.debug_struct("RwLock").field("data", &&*g).finish(),
            None => f.write_str("RwLock { data: <locked> }"),
        }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.raw.0.store(1, SeqCst);
        sched::wake(l.raw.addr());
        sched::point();
        RwLockReadGuard(l)
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        RwLockWriteGuard(l)
    }
}
macro_rules! rd {
    ($g:ident) => {
        impl<'a, T: ?Sized> Deref for $g<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rd!(RwLockReadGuard);
rd!(RwLockWriteGuard);
rd!(RwLockUpgradableReadGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.0.raw.un_sh()
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.0.raw.un_ex()
    }
}
impl<'a, T: ?Sized> Drop for RwLockUpgradableReadGuard<'a, T> {
    fn drop(&mut self) {
        self.0.raw.un_ex()
    }
}

/// notifications are counted, so that a waiter cannot miss one
#[derive(Default, Debug)]
pub struct Condvar {
    gen: AtomicUsize,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            gen: AtomicUsize::new(0),
        }
    }
    fn addr(&self) -> usize {
        self as *const Condvar as usize
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let gen = self.gen.load(SeqCst);
        g.0.raw.un_ex();
        while self.gen.load(SeqCst) == gen {
            if !sched::block(self.addr()) {
                std::thread::yield_now();
            }
        }
        g.0.raw.ex();
    }
    pub fn notify_one(&self) -> bool {
        self.gen.fetch_add(1, SeqCst);
        sched::wake(self.addr());
        true
    }
    pub fn notify_all(&self) -> usize {
        self.gen.fetch_add(1, SeqCst);
        sched::wake(self.addr());
        1
    }
}
