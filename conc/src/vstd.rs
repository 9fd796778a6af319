//! `std` as seen by the code under test: synchronisation goes through the scheduler.
pub use ::std::*;
pub mod thread {
    pub use ::std::thread::*;
    use crate::sched;
    #[derive(Debug)]
    pub struct Thread(usize, [u8; 8]);
    impl Clone for Thread {
        fn clone(&self) -> Self {
            sched::touch(self as *const _ as usize);
            Thread(self.0, self.1)
        }
    }
    impl Thread {
        pub fn unpark(&self) {
            sched::touch(self as *const _ as usize);
            sched::unpark(self.0);
        }
    }
    pub fn current() -> Thread {
        Thread(sched::tid(), [0; 8])
    }
    pub fn park() {
        sched::park()
    }
    pub fn park_timeout(_: ::std::time::Duration) {
        sched::park()
    }
    pub fn yield_now() {
        sched::point()
    }
    pub fn sleep(_: ::std::time::Duration) {
        sched::point()
    }
}
pub mod sync {
    pub use super::shim::{Arc, Mutex, MutexGuard, Once, OnceLock, Weak};
    pub use ::std::sync::*;
    pub mod atomic {
        pub use super::super::shim::{fence, AtomicBool, AtomicPtr, AtomicU8, AtomicU32, AtomicU64, AtomicUsize, AtomicIsize};
        pub use ::std::sync::atomic::*;
    }
}
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sched::point()
    }
}
mod shim {
    use crate::sched::{self, point, touch};
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::mem::MaybeUninit;
    use ::std::ops::Deref;
    use ::std::ptr::NonNull;
    use ::std::sync::atomic as at;
    use ::std::sync::atomic::Ordering;
    use ::std::sync::atomic::Ordering::SeqCst;

    pub fn fence(_: Ordering) {
        point()
    }
    macro_rules! atomic {
        ($name:ident, $real:ident, $t:ty $(, $g:ident)?) => {
            pub struct $name$(<$g>)?(at::$real$(<$g>)?);
            impl$(<$g>)? $name$(<$g>)? {
                pub const fn new(v: $t) -> Self {
                    Self(at::$real::new(v))
                }
                fn at(&self) -> &at::$real$(<$g>)? {
                    point();
                    touch(self as *const _ as *const u8 as usize);
                    &self.0
                }
                pub fn load(&self, _: Ordering) -> $t {
                    self.at().load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    self.at().store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    self.at().swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    self.at().compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    self.at().compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                    self.at().fetch_update(SeqCst, SeqCst, f)
                }
                pub fn into_inner(self) -> $t {
                    touch(&self as *const _ as *const u8 as usize);
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    touch(self as *const _ as *const u8 as usize);
                    self.0.get_mut()
                }
            }
            impl$(<$g>)? fmt::Debug for $name$(<$g>)? {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! arith {
        ($name:ident, $t:ty) => {
            impl $name {
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                    self.at().fetch_add(v, SeqCst)
                }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                    self.at().fetch_sub(v, SeqCst)
                }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                    self.at().fetch_or(v, SeqCst)
                }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                    self.at().fetch_and(v, SeqCst)
                }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                    self.at().fetch_xor(v, SeqCst)
                }
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(0)
                }
            }
        };
    }
    atomic!(AtomicUsize, AtomicUsize, usize);
    atomic!(AtomicIsize, AtomicIsize, isize);
    atomic!(AtomicU8, AtomicU8, u8);
    atomic!(AtomicU32, AtomicU32, u32);
    atomic!(AtomicU64, AtomicU64, u64);
    atomic!(AtomicBool, AtomicBool, bool);
    atomic!(AtomicPtr, AtomicPtr, *mut T, T);
    arith!(AtomicUsize, usize);
    arith!(AtomicIsize, isize);
    arith!(AtomicU8, u8);
    arith!(AtomicU32, u32);
    arith!(AtomicU64, u64);
    impl AtomicBool {
        pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
            self.at().fetch_or(v, SeqCst)
        }
        pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
            self.at().fetch_and(v, SeqCst)
        }
        pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
            self.at().fetch_xor(v, SeqCst)
        }
    }
    impl Default for AtomicBool {
        fn default() -> Self {
            Self::new(false)
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(::std::ptr::null_mut())
        }
    }

    // ------------------------------------------------------------------ Once
    const NEW: u8 = 0;
    const RUNNING: u8 = 1;
    const COMPLETE: u8 = 2;
    pub struct Once(at::AtomicU8);
    impl Once {
        pub const fn new() -> Self {
            Once(at::AtomicU8::new(NEW))
        }
        fn addr(&self) -> usize {
            self as *const _ as usize
        }
        pub fn is_completed(&self) -> bool {
            point();
            touch(self.addr());
            self.0.load(SeqCst) == COMPLETE
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            point();
            touch(self.addr());
            loop {
                match self.0.load(SeqCst) {
                    COMPLETE => return,
                    RUNNING => {
                        sched::block_on(self.addr());
                        touch(self.addr());
                    }
                    NEW => break,
                    _ => {
                        // freed memory reused as poison: reported through touch
                        return;
                    }
                }
            }
            self.0.store(RUNNING, SeqCst);
            f();
            point();
            touch(self.addr());
            self.0.store(COMPLETE, SeqCst);
            sched::wake(self.addr());
        }
        pub fn call_once_force<F: FnOnce(())>(&self, f: F) {
            self.call_once(|| f(()))
        }
    }
    impl fmt::Debug for Once {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Once")
        }
    }
    pub struct OnceLock<T>(Once, UnsafeCell<Option<T>>);
    unsafe impl<T: Send> Send for OnceLock<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(Once::new(), UnsafeCell::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            if self.0.is_completed() {
                unsafe { (*self.1.get()).as_ref() }
            } else {
                None
            }
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            let mut v = Some(v);
            self.0.call_once(|| unsafe { *self.1.get() = v.take() });
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.0.call_once(|| unsafe { *self.1.get() = Some(f()) });
            self.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.1.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.0 = Once::new();
            self.1.get_mut().take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }

    // ----------------------------------------------------------------- Mutex
    pub struct Mutex<T: ?Sized>(at::AtomicBool, UnsafeCell<T>);
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex(at::AtomicBool::new(false), UnsafeCell::new(v))
        }
        pub fn into_inner(self) -> Result<T, ::std::sync::PoisonError<T>> {
            Ok(self.1.into_inner())
        }
        pub fn get_mut(&mut self) -> Result<&mut T, ::std::sync::PoisonError<&mut T>> {
            Ok(self.1.get_mut())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            self as *const _ as *const u8 as usize
        }
        pub fn lock(&self) -> Result<MutexGuard<'_, T>, ::std::sync::PoisonError<MutexGuard<'_, T>>> {
            point();
            touch(self.addr());
            while self.0.swap(true, SeqCst) {
                sched::block_on(self.addr());
                touch(self.addr());
            }
            Ok(MutexGuard(self))
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            point();
            touch(self.0.addr());
            self.0 .0.store(false, SeqCst);
            sched::wake(self.0.addr());
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0 .1.get() }
        }
    }
    impl<T: ?Sized> ::std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0 .1.get() }
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }

    // ------------------------------------------------------------------- Arc
    struct Inner<T> {
        strong: at::AtomicUsize,
        /// weak references, plus one for all strong ones together
        weak: at::AtomicUsize,
        val: UnsafeCell<MaybeUninit<T>>,
    }
    pub struct Arc<T>(NonNull<Inner<T>>);
    pub struct Weak<T>(Option<NonNull<Inner<T>>>);
    unsafe impl<T: Send + Sync> Send for Arc<T> {}
    unsafe impl<T: Send + Sync> Sync for Arc<T> {}
    unsafe impl<T: Send + Sync> Send for Weak<T> {}
    unsafe impl<T: Send + Sync> Sync for Weak<T> {}
    fn drop_weak<T>(p: NonNull<Inner<T>>) {
        touch(p.as_ptr() as usize);
        if unsafe { p.as_ref() }.weak.fetch_sub(1, SeqCst) == 1 {
            drop(unsafe { Box::from_raw(p.as_ptr()) });
        }
    }
    impl<T> Arc<T> {
        pub fn new(v: T) -> Self {
            let b = Box::new(Inner { strong: at::AtomicUsize::new(1), weak: at::AtomicUsize::new(1), val: UnsafeCell::new(MaybeUninit::new(v)) });
            Arc(unsafe { NonNull::new_unchecked(Box::into_raw(b)) })
        }
        fn inner(&self) -> &Inner<T> {
            touch(self.0.as_ptr() as usize);
            unsafe { self.0.as_ref() }
        }
        pub fn downgrade(this: &Self) -> Weak<T> {
            point();
            this.inner().weak.fetch_add(1, SeqCst);
            Weak(Some(this.0))
        }
        pub fn into_inner(this: Self) -> Option<T> {
            point();
            let p = this.0;
            ::std::mem::forget(this);
            touch(p.as_ptr() as usize);
            let i = unsafe { p.as_ref() };
            if i.strong.fetch_sub(1, SeqCst) != 1 {
                return None;
            }
            let v = unsafe { (*i.val.get()).assume_init_read() };
            drop_weak(p);
            Some(v)
        }
        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            point();
            let i = this.inner();
            if i.strong.compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
                return Err(this);
            }
            let v = unsafe { (*i.val.get()).assume_init_read() };
            let p = this.0;
            ::std::mem::forget(this);
            drop_weak(p);
            Ok(v)
        }
        pub fn strong_count(this: &Self) -> usize {
            point();
            this.inner().strong.load(SeqCst)
        }
        pub fn weak_count(this: &Self) -> usize {
            point();
            this.inner().weak.load(SeqCst) - 1
        }
        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            a.0 == b.0
        }
        pub fn as_ptr(this: &Self) -> *const T {
            this.inner().val.get() as *const T
        }
        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            point();
            let i = this.inner();
            if i.strong.load(SeqCst) == 1 && i.weak.load(SeqCst) == 1 {
                Some(unsafe { (*i.val.get()).assume_init_mut() })
            } else {
                None
            }
        }
    }
    impl<T> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { (*self.inner().val.get()).assume_init_ref() }
        }
    }
    impl<T> Clone for Arc<T> {
        fn clone(&self) -> Self {
            point();
            self.inner().strong.fetch_add(1, SeqCst);
            Arc(self.0)
        }
    }
    impl<T> Drop for Arc<T> {
        fn drop(&mut self) {
            point();
            let i = self.inner();
            if i.strong.fetch_sub(1, SeqCst) == 1 {
                unsafe { (*i.val.get()).assume_init_drop() };
                drop_weak(self.0);
            }
        }
    }
    impl<T: Default> Default for Arc<T> {
        fn default() -> Self {
            Arc::new(T::default())
        }
    }
    impl<T> fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Arc")
        }
    }
    impl<T> fmt::Debug for Weak<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Weak")
        }
    }
    impl<T> Weak<T> {
        pub const fn new() -> Self {
            Weak(None)
        }
        pub fn upgrade(&self) -> Option<Arc<T>> {
            let p = self.0?;
            point();
            touch(p.as_ptr() as usize);
            let i = unsafe { p.as_ref() };
            if i.strong.load(SeqCst) == 0 {
                return None;
            }
            i.strong.fetch_add(1, SeqCst);
            Some(Arc(p))
        }
        pub fn strong_count(&self) -> usize {
            let Some(p) = self.0 else { return 0 };
            point();
            touch(p.as_ptr() as usize);
            unsafe { p.as_ref() }.strong.load(SeqCst)
        }
    }
    impl<T> Clone for Weak<T> {
        fn clone(&self) -> Self {
            if let Some(p) = self.0 {
                point();
                touch(p.as_ptr() as usize);
                unsafe { p.as_ref() }.weak.fetch_add(1, SeqCst);
            }
            Weak(self.0)
        }
    }
    impl<T> Default for Weak<T> {
        fn default() -> Self {
            Weak(None)
        }
    }
    impl<T> Drop for Weak<T> {
        fn drop(&mut self) {
            if let Some(p) = self.0 {
                point();
                drop_weak(p);
            }
        }
    }
}
