//! `std::sync` with scheduling points. Locks are the real ones, taken without blocking under the scheduler's token.
pub use crate::real_std::sync::{
    mpsc, Arc, Barrier, BarrierWaitResult, LockResult, PoisonError, TryLockError, TryLockResult, WaitTimeoutResult, Weak,
};
use crate::real_std::{
    cell::{Cell, UnsafeCell},
    fmt,
    mem::ManuallyDrop,
    ops::{Deref, DerefMut},
    panic::{RefUnwindSafe, UnwindSafe},
    sync as real,
    sync::atomic::Ordering::SeqCst,
    time::Duration,
};
use crate::sched::{block, pause, point, wake};

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: ManuallyDrop<real::MutexGuard<'a, T>>,
}
fn addr<T: ?Sized>(v: &T) -> usize {
    v as *const T as *const () as usize
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, inner: ManuallyDrop::new(g) }
    }
    fn take(&self) -> LockResult<MutexGuard<'_, T>> {
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wrap(e.into_inner()))),
                Err(TryLockError::WouldBlock) => block(addr(self)),
            }
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point();
        self.take()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !crate::real_std::thread::panicking() {
            point();
        }
        unsafe { ManuallyDrop::drop(&mut self.inner) }
        wake(addr(self.lock));
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------------ RwLock
/// A reader has to wait while a writer waits for the lock to become free, as with the real lock on this platform.
pub struct RwLock<T: ?Sized> {
    waiting: real::atomic::AtomicUsize,
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: ManuallyDrop<real::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: ManuallyDrop<real::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { waiting: real::atomic::AtomicUsize::new(0), inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn wr<'a>(&'a self, g: real::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard { lock: self, inner: ManuallyDrop::new(g) }
    }
    fn ww<'a>(&'a self, g: real::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard { lock: self, inner: ManuallyDrop::new(g) }
    }
    fn held(&self) -> bool {
        matches!(self.inner.try_write(), Err(TryLockError::WouldBlock))
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point();
        loop {
            if self.waiting.load(SeqCst) > 0 && self.held() {
                block(addr(self));
                continue;
            }
            match self.inner.try_read() {
                Ok(g) => return Ok(self.wr(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wr(e.into_inner()))),
                Err(TryLockError::WouldBlock) => block(addr(self)),
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point();
        loop {
            match self.inner.try_write() {
                Ok(g) => return Ok(self.ww(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.ww(e.into_inner()))),
                Err(TryLockError::WouldBlock) => {
                    self.waiting.fetch_add(1, SeqCst);
                    block(addr(self));
                    self.waiting.fetch_sub(1, SeqCst);
                }
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point();
        match self.inner.try_read() {
            Ok(g) => Ok(self.wr(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.wr(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point();
        match self.inner.try_write() {
            Ok(g) => Ok(self.ww(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.ww(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
macro_rules! rw_guard {
    ($g:ident) => {
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.inner
            }
        }
        impl<T: ?Sized> Drop for $g<'_, T> {
            fn drop(&mut self) {
                if !crate::real_std::thread::panicking() {
                    point();
                }
                unsafe { ManuallyDrop::drop(&mut self.inner) }
                wake(addr(self.lock));
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rw_guard!(RwLockReadGuard);
rw_guard!(RwLockWriteGuard);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}

// ------------------------------------------------------------------ Condvar
/// every notification wakes all waiters (spurious wake-ups are allowed)
#[derive(Default, Debug)]
pub struct Condvar {
    _p: real::atomic::AtomicU8,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { _p: real::atomic::AtomicU8::new(0) }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = g.lock;
        point();
        {
            // release without a scheduling point in between, then sleep
            let mut g = ManuallyDrop::new(g);
            unsafe { ManuallyDrop::drop(&mut g.inner) }
            wake(addr(lock));
        }
        block(addr(self));
        lock.take()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
        let lock = g.lock;
        drop(g);
        pause();
        lock.take().map(|g| (g, true)).map_err(|e| PoisonError::new((e.into_inner(), true)))
    }
    pub fn notify_one(&self) {
        point();
        wake(addr(self));
    }
    pub fn notify_all(&self) {
        point();
        wake(addr(self));
    }
}

// ------------------------------------------------------------------ Once, OnceLock, LazyLock
pub struct Once {
    state: real::atomic::AtomicU8, // 0 new, 1 running, 2 done, 3 poisoned
}
#[derive(Debug)]
pub struct OnceState {
    poisoned: bool,
}
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
pub const ONCE_INIT: Once = Once::new();
impl Once {
    pub const fn new() -> Self {
        Once { state: real::atomic::AtomicU8::new(0) }
    }
    fn run(&self, force: bool, f: &mut dyn FnMut(&OnceState)) {
        if self.state.load(SeqCst) == 2 {
            return; // a final state: reading it commutes with everything any other thread does
        }
        point();
        loop {
            match self.state.load(SeqCst) {
                2 => return,
                1 => block(addr(self)),
                3 if !force => panic!("Once instance has previously been poisoned"),
                s => {
                    self.state.store(1, SeqCst);
                    struct Done<'a>(&'a Once, u8);
                    impl Drop for Done<'_> {
                        fn drop(&mut self) {
                            self.0.state.store(self.1, SeqCst);
                            wake(addr(self.0));
                        }
                    }
                    let mut d = Done(self, 3);
                    f(&OnceState { poisoned: s == 3 });
                    d.1 = 2;
                    point();
                    return;
                }
            }
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut f = Some(f);
        self.run(false, &mut |_| f.take().unwrap()())
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        let mut f = Some(f);
        self.run(true, &mut |s| f.take().unwrap()(s))
    }
    pub fn is_completed(&self) -> bool {
        point();
        self.state.load(SeqCst) == 2
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once")
    }
}
pub struct OnceLock<T> {
    once: Once,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), value: UnsafeCell::new(None) }
    }
    fn done(&self) -> Option<&T> {
        if self.once.state.load(SeqCst) == 2 {
            unsafe { (*self.value.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get(&self) -> Option<&T> {
        if self.done().is_none() {
            point();
        }
        self.done()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let mut f = Some(f);
        self.once.run(true, &mut |_| {
            let v = f.take().unwrap()();
            unsafe { *self.value.get() = Some(v) }
        });
        self.done().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = Once::new();
        self.value.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock")
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| this.init.take().expect("LazyLock instance has previously been poisoned")())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

// ------------------------------------------------------------------ atomics (sequentially consistent)
pub mod atomic {
    pub use crate::real_std::sync::atomic::{compiler_fence, Ordering};
    use crate::real_std::{fmt, sync::atomic as real, sync::atomic::Ordering::SeqCst};
    use crate::sched::point;
    pub fn fence(_o: Ordering) {
        point();
    }
    macro_rules! common {
        ($name:ident, $t:ty) => {
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(real::$name::new(v))
                }
                pub fn load(&self, _: Ordering) -> $t {
                    point();
                    self.0.load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point();
                    self.0.store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point();
                    self.0.swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                    point();
                    self.0.fetch_update(SeqCst, SeqCst, f)
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
            }
            impl fmt::Debug for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! fetch {
        ($name:ident, $t:ty, $($f:ident)*) => {
            impl $name {
                $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    point();
                    self.0.$f(v, SeqCst)
                })*
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty)*) => {$(
            #[derive(Default)]
            pub struct $name(real::$name);
            common!($name, $t);
            fetch!($name, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
        )*};
    }
    int!(AtomicU8 u8 AtomicU16 u16 AtomicU32 u32 AtomicU64 u64 AtomicUsize usize AtomicI8 i8 AtomicI16 i16 AtomicI32 i32 AtomicI64 i64 AtomicIsize isize);
    #[derive(Default)]
    pub struct AtomicBool(real::AtomicBool);
    common!(AtomicBool, bool);
    fetch!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self {
            AtomicPtr(real::AtomicPtr::new(v))
        }
        pub fn load(&self, _: Ordering) -> *mut T {
            point();
            self.0.load(SeqCst)
        }
        pub fn store(&self, v: *mut T, _: Ordering) {
            point();
            self.0.store(v, SeqCst)
        }
        pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T {
            point();
            self.0.swap(v, SeqCst)
        }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point();
            self.0.compare_exchange(a, b, SeqCst, SeqCst)
        }
        pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, o: Ordering, p: Ordering) -> Result<*mut T, *mut T> {
            self.compare_exchange(a, b, o, p)
        }
    }
}
