//! The standard library with its blocking and atomic primitives replaced by ones that a scheduler
//! under the harness' control can interleave.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;

use ::std::sync::atomic::{AtomicBool as RealBool, Ordering as RealOrdering};

static ACTIVE: RealBool = RealBool::new(false);

/// Whether an execution under the scheduler is in progress.
pub fn vstd_active(on: bool) {
    ACTIVE.store(on, RealOrdering::SeqCst);
}

/// A point at which the scheduler may run another thread.
pub fn vstd_switch() {
    if ACTIVE.load(RealOrdering::SeqCst) && !::std::thread::panicking() {
        let a = shuttle::sync::atomic::AtomicUsize::new(0);
        a.load(RealOrdering::SeqCst);
    }
}

pub mod thread {
    pub use shuttle::thread::{
        current, park, scope, sleep, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle, Thread, ThreadId,
    };
    pub use ::std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result};
}

pub mod hint {
    pub use ::std::hint::*;
    pub use shuttle::hint::spin_loop;
}

pub mod sync {
    pub use ::std::sync::{LockResult, OnceLock, LazyLock, PoisonError, TryLockError, TryLockResult};
    pub use shuttle::sync::{
        mpsc, Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;
        pub use shuttle::sync::atomic::*;
    }

    #[cfg(feature = "plain-arc")]
    pub use ::std::sync::{Arc, Weak};
    #[cfg(not(feature = "plain-arc"))]
    pub use super::arc::{Arc, Weak};
}

#[cfg(not(feature = "plain-arc"))]
mod arc {
    use super::vstd_switch as sw;
    use ::std::{
        borrow::Borrow,
        fmt,
        hash::{Hash, Hasher},
        mem::ManuallyDrop,
        ops::Deref,
        sync::{Arc as A, Weak as W},
    };

    /// An `Arc` whose clones, drops and counts are scheduling points.
    pub struct Arc<T: ?Sized>(A<T>);
    pub struct Weak<T: ?Sized>(W<T>);

    impl<T: ?Sized> Drop for Arc<T> {
        fn drop(&mut self) {
            sw();
        }
    }
    impl<T: ?Sized> Clone for Arc<T> {
        fn clone(&self) -> Self {
            sw();
            Arc(self.0.clone())
        }
    }
    impl<T: ?Sized> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> Arc<T> {
        fn take(self) -> A<T> {
            let m = ManuallyDrop::new(self);
            // SAFETY: never dropped
            unsafe { ::std::ptr::read(&m.0) }
        }
        pub fn strong_count(this: &Self) -> usize {
            sw();
            A::strong_count(&this.0)
        }
        pub fn weak_count(this: &Self) -> usize {
            sw();
            A::weak_count(&this.0)
        }
        pub fn downgrade(this: &Self) -> Weak<T> {
            sw();
            Weak(A::downgrade(&this.0))
        }
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            A::ptr_eq(&a.0, &b.0)
        }
        pub fn as_ptr(this: &Self) -> *const T {
            A::as_ptr(&this.0)
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            sw();
            A::get_mut(&mut this.0)
        }
    }
    impl<T> Arc<T> {
        pub fn new(t: T) -> Self {
            Arc(A::new(t))
        }
        pub fn new_cyclic(f: impl FnOnce(&Weak<T>) -> T) -> Self {
            Arc(A::new_cyclic(|w| f(&Weak(w.clone()))))
        }
        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            sw();
            A::try_unwrap(this.take()).map_err(Arc)
        }
        pub fn into_inner(this: Self) -> Option<T> {
            sw();
            A::into_inner(this.take())
        }
    }
    impl<T: Clone> Arc<T> {
        pub fn make_mut(this: &mut Self) -> &mut T {
            sw();
            A::make_mut(&mut this.0)
        }
        pub fn unwrap_or_clone(this: Self) -> T {
            sw();
            A::unwrap_or_clone(this.take())
        }
    }
    impl<T: ?Sized> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            self
        }
    }
    impl<T: ?Sized> Borrow<T> for Arc<T> {
        fn borrow(&self) -> &T {
            self
        }
    }
    impl<T> From<T> for Arc<T> {
        fn from(t: T) -> Self {
            Arc::new(t)
        }
    }
    impl<T: Default> Default for Arc<T> {
        fn default() -> Self {
            Arc::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
        fn eq(&self, o: &Self) -> bool {
            **self == **o
        }
    }
    impl<T: ?Sized + Eq> Eq for Arc<T> {}
    impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
        fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> {
            (**self).partial_cmp(&**o)
        }
    }
    impl<T: ?Sized + Ord> Ord for Arc<T> {
        fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {
            (**self).cmp(&**o)
        }
    }
    impl<T: ?Sized + Hash> Hash for Arc<T> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            (**self).hash(h)
        }
    }

    impl<T> Weak<T> {
        pub fn new() -> Self {
            Weak(W::new())
        }
    }
    impl<T> Default for Weak<T> {
        fn default() -> Self {
            Weak::new()
        }
    }
    impl<T: ?Sized> Weak<T> {
        pub fn upgrade(&self) -> Option<Arc<T>> {
            sw();
            self.0.upgrade().map(Arc)
        }
        pub fn strong_count(&self) -> usize {
            sw();
            self.0.strong_count()
        }
        pub fn weak_count(&self) -> usize {
            sw();
            self.0.weak_count()
        }
        pub fn ptr_eq(&self, o: &Self) -> bool {
            self.0.ptr_eq(&o.0)
        }
    }
    impl<T: ?Sized> Clone for Weak<T> {
        fn clone(&self) -> Self {
            Weak(self.0.clone())
        }
    }
    impl<T: ?Sized> fmt::Debug for Weak<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "(Weak)")
        }
    }
}
