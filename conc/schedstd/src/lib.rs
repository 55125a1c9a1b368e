//! `std` with locks and atomics that are scheduling points of the controlled scheduler. The copy of
//! banyan that is checked for concurrency is compiled with `extern crate schedstd as std`.
pub use std::*;

pub mod sync {
    pub use std::sync::*;

    use std::fmt;
    use std::ops::{Deref, DerefMut};
    use std::sync::atomic::{AtomicBool as Flag, Ordering::SeqCst};
    use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use std::thread::panicking;

    fn res<G>(poisoned: bool, g: G) -> LockResult<G> {
        if poisoned {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn tres<G>(poisoned: bool, g: Option<G>) -> TryLockResult<G> {
        match g {
            None => Err(TryLockError::WouldBlock),
            Some(g) if poisoned => Err(TryLockError::Poisoned(PoisonError::new(g))),
            Some(g) => Ok(g),
        }
    }

    pub struct Mutex<T: ?Sized> {
        poison: Flag,
        m: parking_lot::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: Option<parking_lot::MutexGuard<'a, T>>,
        was: bool,
        l: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex {
                poison: Flag::new(false),
                m: parking_lot::Mutex::new(v),
            }
        }
        pub fn into_inner(self) -> LockResult<T> {
            res(self.poison.load(SeqCst), self.m.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard<'a>(&'a self, g: parking_lot::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            MutexGuard {
                g: Some(g),
                was: panicking(),
                l: self,
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = self.m.lock();
            res(self.poison.load(SeqCst), self.guard(g))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let g = self.m.try_lock().map(|g| self.guard(g));
            tres(self.poison.load(SeqCst), g)
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poison.load(SeqCst);
            res(p, self.m.get_mut())
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Mutex::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if self.g.is_some() && !self.was && panicking() {
                self.l.poison.store(true, SeqCst);
            }
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    pub struct RwLock<T: ?Sized> {
        poison: Flag,
        m: parking_lot::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized>(parking_lot::RwLockReadGuard<'a, T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: parking_lot::RwLockWriteGuard<'a, T>,
        was: bool,
        l: &'a RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock {
                poison: Flag::new(false),
                m: parking_lot::RwLock::new(v),
            }
        }
        pub fn into_inner(self) -> LockResult<T> {
            res(self.poison.load(SeqCst), self.m.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn guard<'a>(&'a self, g: parking_lot::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
            RwLockWriteGuard {
                g,
                was: panicking(),
                l: self,
            }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let g = RwLockReadGuard(self.m.read());
            res(self.poison.load(SeqCst), g)
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let g = self.m.write();
            res(self.poison.load(SeqCst), self.guard(g))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            let g = self.m.try_read().map(RwLockReadGuard);
            tres(self.poison.load(SeqCst), g)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            let g = self.m.try_write().map(|g| self.guard(g));
            tres(self.poison.load(SeqCst), g)
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poison.load(SeqCst);
            res(p, self.m.get_mut())
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(v: T) -> Self {
            RwLock::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.g
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
        fn drop(&mut self) {
            if !self.was && panicking() {
                self.l.poison.store(true, SeqCst);
            }
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar(parking_lot::Condvar);
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(parking_lot::Condvar::new())
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            self.0.wait(g.g.as_mut().unwrap());
            res(g.l.is_poisoned(), g)
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            self.0.notify_one();
        }
        pub fn notify_all(&self) {
            self.0.notify_all();
        }
    }

    pub mod atomic {
        pub use std::sync::atomic::*;
        use std::fmt;

        fn p() {
            parking_lot::sched::point()
        }
        macro_rules! base {
            ($n:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $n(std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        p();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        p();
                        self.0.store(v, o);
                        p();
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        p();
                        let r = self.0.swap(v, o);
                        p();
                        r
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        p();
                        let r = self.0.compare_exchange(a, b, s, f);
                        p();
                        r
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        // never fails without a reason
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        s: Ordering,
                        f: Ordering,
                        mut g: F,
                    ) -> Result<$t, $t> {
                        let mut cur = self.load(f);
                        while let Some(n) = g(cur) {
                            match self.compare_exchange(cur, n, s, f) {
                                Ok(x) => return Ok(x),
                                Err(x) => cur = x,
                            }
                        }
                        Err(cur)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl fmt::Debug for $n {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! ops {
            ($n:ident, $t:ty, $($f:ident)*) => {
                impl $n {
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        p();
                        let r = self.0.$f(v, o);
                        p();
                        r
                    })*
                }
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty;)*) => {$(
                base!($n, $t);
                ops!($n, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            )*};
        }
        int! {
            AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32; AtomicI32 i32;
            AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8;
        }
        base!(AtomicBool, bool);
        ops!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
    }
}
