//! The standard library with its locks and atomics replaced by ones a scheduler controls.
//! The C API's source is compiled with `extern crate vstd as std`, so that every acquisition of a
//! lock and every atomic access is a scheduling point. Threads that are not under control use
//! them as usual.
pub use ::std::*;
pub mod sched;

pub mod sync {
    pub use ::std::sync::{mpsc, Arc, Barrier, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
    use crate::sched;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;

    #[derive(Debug)]
    pub struct Mutex<T: ?Sized> {
        m: real::Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { m: real::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    #[derive(Debug)]
    pub struct MutexGuard<'a, T: ?Sized> {
        g: Option<real::MutexGuard<'a, T>>,
        id: usize,
    }
    impl<T: ?Sized> Mutex<T> {
        fn id(&self) -> usize {
            self as *const Self as *const u8 as usize
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::acquire(self.id(), true);
            match self.m.lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), id: self.id() }),
                Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id: self.id() })),
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if !sched::try_acquire(self.id(), true) {
                return Err(TryLockError::WouldBlock);
            }
            match self.m.lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), id: self.id() }),
                Err(p) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id: self.id() }))),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.m.is_poisoned()
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            sched::release(self.id);
        }
    }

    #[derive(Debug)]
    pub struct RwLock<T: ?Sized> {
        m: real::RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { m: real::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    #[derive(Debug)]
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: Option<real::RwLockReadGuard<'a, T>>,
        id: usize,
    }
    #[derive(Debug)]
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: Option<real::RwLockWriteGuard<'a, T>>,
        id: usize,
    }
    impl<T: ?Sized> RwLock<T> {
        fn id(&self) -> usize {
            self as *const Self as *const u8 as usize
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            sched::acquire(self.id(), false);
            match self.m.read() {
                Ok(g) => Ok(RwLockReadGuard { g: Some(g), id: self.id() }),
                Err(p) => Err(PoisonError::new(RwLockReadGuard { g: Some(p.into_inner()), id: self.id() })),
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            sched::acquire(self.id(), true);
            match self.m.write() {
                Ok(g) => Ok(RwLockWriteGuard { g: Some(g), id: self.id() }),
                Err(p) => Err(PoisonError::new(RwLockWriteGuard { g: Some(p.into_inner()), id: self.id() })),
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            sched::release(self.id);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            sched::release(self.id);
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
        use ::std::sync::atomic as real;
        macro_rules! atom {
            ($name:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $name(real::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(real::$name::new(v))
                    }
                    pub fn load(&self, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.load(Ordering::SeqCst)
                    }
                    pub fn store(&self, v: $t, _o: Ordering) {
                        crate::sched::point();
                        self.0.store(v, Ordering::SeqCst)
                    }
                    pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.swap(v, Ordering::SeqCst)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
                        crate::sched::point();
                        self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, f: F) -> Result<$t, $t> {
                        crate::sched::point();
                        self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
            };
        }
        macro_rules! arith {
            ($name:ident, $t:ty) => {
                atom!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_add(v, Ordering::SeqCst)
                    }
                    pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_sub(v, Ordering::SeqCst)
                    }
                    pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_max(v, Ordering::SeqCst)
                    }
                    pub fn fetch_min(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_min(v, Ordering::SeqCst)
                    }
                    pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_or(v, Ordering::SeqCst)
                    }
                    pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
                        crate::sched::point();
                        self.0.fetch_and(v, Ordering::SeqCst)
                    }
                }
            };
        }
        arith!(AtomicUsize, usize);
        arith!(AtomicIsize, isize);
        arith!(AtomicU64, u64);
        arith!(AtomicI64, i64);
        arith!(AtomicU32, u32);
        arith!(AtomicI32, i32);
        arith!(AtomicU16, u16);
        arith!(AtomicU8, u8);
        atom!(AtomicBool, bool);
    }
}
