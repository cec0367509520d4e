use crate::rt::{self, Kind, Meta};
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
pub use ::std::sync::*;

fn stuck() -> ! {
    panic!("deadlock: the lock is already held by this very thread")
}

/// A poisoned lock is an error only for code that is not already unwinding:
/// the panic that poisoned it is what gets reported.
fn poisoned<G>(g: G) -> LockResult<G> {
    if ::std::thread::panicking() { Ok(g) } else { Err(PoisonError::new(g)) }
}

/// Releasing a lock is a scheduling point of its own only if somebody can tell
/// a held lock from a free one without waiting for it: once any thread tries a
/// lock, the exploration starts over with releases being scheduling points.
mod tries {
    use ::std::sync::atomic::{AtomicU8, Ordering::Relaxed};
    static ON: AtomicU8 = AtomicU8::new(0);
    const VAR: &str = "MC_TRIES";
    #[inline]
    pub fn on() -> bool {
        match ON.load(Relaxed) {
            0 => { let v = ::std::env::var_os(VAR).is_some(); ON.store(1 + v as u8, Relaxed); v }
            v => v == 2,
        }
    }
    pub fn seen() {
        if on() || !crate::rt::active() { return; }
        use ::std::os::unix::process::CommandExt;
        let mut a = ::std::env::args_os();
        a.next();
        let e = ::std::process::Command::new(::std::env::current_exe().unwrap()).args(a).env(VAR, "1").exec();
        eprintln!("cannot start over: {}", e);
        ::std::process::exit(2);
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    meta: Meta,
    inner: ::std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    meta: &'a Meta,
    inner: ManuallyDrop<::std::sync::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { meta: Meta::new(), inner: ::std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        rt::locked(&self.meta, true);
        MutexGuard { meta: &self.meta, inner: ManuallyDrop::new(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::op(Kind::LockX, Some(&self.meta));
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(p)) => poisoned(self.wrap(p.into_inner())),
            Err(TryLockError::WouldBlock) => stuck(),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        tries::seen();
        rt::op(Kind::Write, Some(&self.meta));
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.wrap(p.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if tries::on() { rt::op(Kind::Write, Some(self.meta)); }
        unsafe { ManuallyDrop::drop(&mut self.inner) }
        rt::unlocked(self.meta, true);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { &mut self.inner } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    meta: Meta,
    inner: ::std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    meta: &'a Meta,
    inner: ManuallyDrop<::std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    meta: &'a Meta,
    inner: ManuallyDrop<::std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { meta: Meta::new(), inner: ::std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    fn wr<'a>(&'a self, g: ::std::sync::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        rt::locked(&self.meta, false);
        RwLockReadGuard { meta: &self.meta, inner: ManuallyDrop::new(g) }
    }
    fn ww<'a>(&'a self, g: ::std::sync::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        rt::locked(&self.meta, true);
        RwLockWriteGuard { meta: &self.meta, inner: ManuallyDrop::new(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::op(Kind::LockR, Some(&self.meta));
        match self.inner.try_read() {
            Ok(g) => Ok(self.wr(g)),
            Err(TryLockError::Poisoned(p)) => poisoned(self.wr(p.into_inner())),
            Err(TryLockError::WouldBlock) => stuck(),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::op(Kind::LockX, Some(&self.meta));
        match self.inner.try_write() {
            Ok(g) => Ok(self.ww(g)),
            Err(TryLockError::Poisoned(p)) => poisoned(self.ww(p.into_inner())),
            Err(TryLockError::WouldBlock) => stuck(),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        tries::seen();
        rt::op(Kind::Write, Some(&self.meta));
        match self.inner.try_read() {
            Ok(g) => Ok(self.wr(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.wr(p.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        tries::seen();
        rt::op(Kind::Write, Some(&self.meta));
        match self.inner.try_write() {
            Ok(g) => Ok(self.ww(g)),
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.ww(p.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if tries::on() { rt::op(Kind::Read, Some(self.meta)); }
        unsafe { ManuallyDrop::drop(&mut self.inner) }
        rt::unlocked(self.meta, false);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if tries::on() { rt::op(Kind::Write, Some(self.meta)); }
        unsafe { ManuallyDrop::drop(&mut self.inner) }
        rt::unlocked(self.meta, true);
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    /// atomically: no writer gets in between
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let mut s = ManuallyDrop::new(s);
        if tries::on() { rt::op(Kind::Write, Some(s.meta)); }
        let inner = unsafe { ManuallyDrop::take(&mut s.inner) };
        let inner = ManuallyDrop::new(::std::sync::RwLockWriteGuard::downgrade(inner));
        rt::unlocked(s.meta, true);
        rt::locked(s.meta, false);
        RwLockReadGuard { meta: s.meta, inner }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { &mut self.inner } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    use super::*;
    pub use ::std::sync::atomic::*;

    macro_rules! common {
        ($t:ty, $std:ty $(, $g:ident)?) => {
            pub const fn new(v: $t) -> Self { Self { meta: Meta::new(), inner: <$std>::new(v) } }
            #[inline] pub fn load(&self, o: Ordering) -> $t { rt::op(Kind::Read, Some(&self.meta)); self.inner.load(o) }
            #[inline] pub fn store(&self, v: $t, o: Ordering) { rt::op(Kind::Write, Some(&self.meta)); self.inner.store(v, o) }
            #[inline] pub fn swap(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.swap(v, o) }
            #[inline] pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                rt::op(Kind::Write, Some(&self.meta)); self.inner.compare_exchange(a, b, s, f)
            }
            #[inline] pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                rt::op(Kind::Write, Some(&self.meta)); self.inner.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) { x @ Ok(_) => return x, Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> { self.fetch_update(s, l, f) }
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t {
                match self.fetch_update(s, l, |v| Some(f(v))) { Ok(v) => v, Err(v) => v }
            }
            pub fn get_mut(&mut self) -> &mut $t { self.inner.get_mut() }
            pub fn into_inner(self) -> $t { self.inner.into_inner() }
        };
    }

    macro_rules! int {
        ($name:ident, $t:ty) => {
            pub struct $name { meta: Meta, inner: ::std::sync::atomic::$name }
            impl $name {
                common!($t, ::std::sync::atomic::$name);
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_sub(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_xor(v, o) }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_nand(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_min(v, o) }
            }
            impl Default for $name { fn default() -> Self { Self::new(0) } }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
            impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
        };
    }
    int!(AtomicUsize, usize);
    int!(AtomicIsize, isize);
    int!(AtomicU64, u64);
    int!(AtomicI64, i64);
    int!(AtomicU32, u32);
    int!(AtomicI32, i32);
    int!(AtomicU16, u16);
    int!(AtomicI16, i16);
    int!(AtomicU8, u8);
    int!(AtomicI8, i8);

    pub struct AtomicBool { meta: Meta, inner: ::std::sync::atomic::AtomicBool }
    impl AtomicBool {
        common!(bool, ::std::sync::atomic::AtomicBool);
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_and(v, o) }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_or(v, o) }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_xor(v, o) }
        pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_nand(v, o) }
        pub fn fetch_not(&self, o: Ordering) -> bool { rt::op(Kind::Write, Some(&self.meta)); self.inner.fetch_xor(true, o) }
    }
    impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
    impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
    impl fmt::Debug for AtomicBool { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }

    pub struct AtomicPtr<T> { meta: Meta, inner: ::std::sync::atomic::AtomicPtr<T> }
    impl<T> AtomicPtr<T> {
        common!(*mut T, ::std::sync::atomic::AtomicPtr<T>);
    }
    impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::std::ptr::null_mut()) } }
    impl<T> From<*mut T> for AtomicPtr<T> { fn from(v: *mut T) -> Self { Self::new(v) } }
    impl<T> fmt::Debug for AtomicPtr<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) } }
}

/// Stand-ins for the functions of `Arc` that look at its reference count (the calls are rewritten to these by
/// rustc-wrap.sh): the look, and what is done about it afterwards, are scheduling points.
pub mod arc {
    use crate::rt::{self, Kind};
    use ::std::sync::{Arc, Weak};
    fn look<R>(f: impl FnOnce() -> R, seen: impl FnOnce(&R) -> u64) -> R {
        rt::op(Kind::Write, None);
        let r = f();
        rt::observe(seen(&r));
        rt::op(Kind::Write, None);
        r
    }
    pub fn strong_count<T: ?Sized>(a: &Arc<T>) -> usize { look(|| Arc::strong_count(a), |n| *n as u64) }
    pub fn weak_count<T: ?Sized>(a: &Arc<T>) -> usize { look(|| Arc::weak_count(a), |n| *n as u64) }
    pub fn get_mut<T: ?Sized>(a: &mut Arc<T>) -> Option<&mut T> { look(|| Arc::get_mut(a), |r| r.is_some() as u64) }
    pub fn try_unwrap<T>(a: Arc<T>) -> Result<T, Arc<T>> { look(|| Arc::try_unwrap(a), |r| r.is_ok() as u64) }
    pub fn into_inner<T>(a: Arc<T>) -> Option<T> { look(|| Arc::into_inner(a), |r| r.is_some() as u64) }
    /// `weak.upgrade()` and the like (in the prelude of the crate under test).
    pub trait WeakLook {
        type Strong;
        fn mc_upgrade(&self) -> Option<Self::Strong>;
        fn mc_strong_count(&self) -> usize;
        fn mc_weak_count(&self) -> usize;
    }
    pub fn weak_upgrade<T: ?Sized>(a: &Weak<T>) -> Option<Arc<T>> { a.mc_upgrade() }
    pub fn weak_strong_count<T: ?Sized>(a: &Weak<T>) -> usize { a.mc_strong_count() }
    pub fn weak_weak_count<T: ?Sized>(a: &Weak<T>) -> usize { a.mc_weak_count() }
    impl<T: ?Sized> WeakLook for Weak<T> {
        type Strong = Arc<T>;
        #[inline]
        fn mc_upgrade(&self) -> Option<Arc<T>> {
            rt::look();
            let r = self.upgrade();
            rt::observe(r.is_some() as u64);
            r
        }
        fn mc_strong_count(&self) -> usize { look(|| self.strong_count(), |n| *n as u64) }
        fn mc_weak_count(&self) -> usize { look(|| self.weak_count(), |n| *n as u64) }
    }
}
