//! `std` as the library under test sees it: the real one, with the synchronisation
//! primitives, threads and clocks put under the control of the scheduler. Outside an
//! execution everything falls through to the real thing.
#![allow(clippy::all, deprecated)]
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;
    use ::std::time::Duration;

    // ---------------------------------------------------------------- Mutex
    pub struct Mutex<T: ?Sized> {
        tried: real::atomic::AtomicBool,
        inner: real::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        g: Option<real::MutexGuard<'a, T>>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { tried: real::atomic::AtomicBool::new(false), inner: real::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            self as *const _ as *const u8 as usize
        }
        fn wrap<'a>(&'a self, r: LockResult<real::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
                Err(e) => Err(PoisonError::new(MutexGuard { m: self, g: Some(e.into_inner()) })),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !mcrt::active() {
                return self.wrap(self.inner.lock());
            }
            mcrt::point();
            loop {
                match self.inner.try_lock() {
                    Ok(g) => return self.wrap(Ok(g)),
                    Err(TryLockError::Poisoned(e)) => return self.wrap(Err(e)),
                    Err(TryLockError::WouldBlock) => mcrt::wait_on(self.addr()),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            self.tried.store(true, real::atomic::Ordering::SeqCst);
            mcrt::point();
            match self.inner.try_lock() {
                Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { m: self, g: Some(e.into_inner()) }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            before_release(&self.m.tried);
            self.g = None;
            mcrt::notify(self.m.addr());
        }
    }

    /// Releasing a lock that somebody tries to take without waiting is a visible operation of its
    /// own: another thread may find the lock taken. (With waiting it makes no difference whether
    /// a thread is stopped before it takes the lock or while it holds it.)
    fn before_release(tried: &real::atomic::AtomicBool) {
        if tried.load(real::atomic::Ordering::SeqCst) && !::std::thread::panicking() {
            mcrt::point();
        }
    }

    // ---------------------------------------------------------------- RwLock
    pub struct RwLock<T: ?Sized> {
        tried: real::atomic::AtomicBool,
        inner: real::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        m: &'a RwLock<T>,
        g: Option<real::RwLockReadGuard<'a, T>>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        m: &'a RwLock<T>,
        g: Option<real::RwLockWriteGuard<'a, T>>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { tried: real::atomic::AtomicBool::new(false), inner: real::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn addr(&self) -> usize {
            self as *const _ as *const u8 as usize
        }
        fn wrap_r<'a>(&'a self, r: LockResult<real::RwLockReadGuard<'a, T>>) -> LockResult<RwLockReadGuard<'a, T>> {
            match r {
                Ok(g) => Ok(RwLockReadGuard { m: self, g: Some(g) }),
                Err(e) => Err(PoisonError::new(RwLockReadGuard { m: self, g: Some(e.into_inner()) })),
            }
        }
        fn wrap_w<'a>(&'a self, r: LockResult<real::RwLockWriteGuard<'a, T>>) -> LockResult<RwLockWriteGuard<'a, T>> {
            match r {
                Ok(g) => Ok(RwLockWriteGuard { m: self, g: Some(g) }),
                Err(e) => Err(PoisonError::new(RwLockWriteGuard { m: self, g: Some(e.into_inner()) })),
            }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            if !mcrt::active() {
                return self.wrap_r(self.inner.read());
            }
            mcrt::point();
            loop {
                match self.inner.try_read() {
                    Ok(g) => return self.wrap_r(Ok(g)),
                    Err(TryLockError::Poisoned(e)) => return self.wrap_r(Err(e)),
                    Err(TryLockError::WouldBlock) => mcrt::wait_on(self.addr()),
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            if !mcrt::active() {
                return self.wrap_w(self.inner.write());
            }
            mcrt::point();
            loop {
                match self.inner.try_write() {
                    Ok(g) => return self.wrap_w(Ok(g)),
                    Err(TryLockError::Poisoned(e)) => return self.wrap_w(Err(e)),
                    Err(TryLockError::WouldBlock) => mcrt::wait_on(self.addr()),
                }
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            self.tried.store(true, real::atomic::Ordering::SeqCst);
            mcrt::point();
            match self.inner.try_read() {
                Ok(g) => Ok(RwLockReadGuard { m: self, g: Some(g) }),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { m: self, g: Some(e.into_inner()) }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            self.tried.store(true, real::atomic::Ordering::SeqCst);
            mcrt::point();
            match self.inner.try_write() {
                Ok(g) => Ok(RwLockWriteGuard { m: self, g: Some(g) }),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { m: self, g: Some(e.into_inner()) }))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            before_release(&self.m.tried);
            self.g = None;
            mcrt::notify(self.m.addr());
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            before_release(&self.m.tried);
            self.g = None;
            mcrt::notify(self.m.addr());
        }
    }

    // ---------------------------------------------------------------- Condvar
    #[derive(Default, Debug)]
    pub struct Condvar {
        inner: real::Condvar,
        waiting: real::Mutex<u64>,
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { inner: real::Condvar::new(), waiting: real::Mutex::new(0) }
        }
        fn addr(&self) -> usize {
            self as *const _ as usize
        }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            if !mcrt::active() {
                let r = self.inner.wait(g.g.take().unwrap());
                ::std::mem::forget(g);
                return m.wrap(r);
            }
            drop(g);
            *self.waiting.lock().unwrap() += 1;
            mcrt::wait_on(self.addr());
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            mcrt::notify_one(self.addr());
            self.inner.notify_one();
        }
        pub fn notify_all(&self) {
            mcrt::notify(self.addr());
            self.inner.notify_all();
        }
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
            match self.wait(g) {
                Ok(g) => Ok((g, false)),
                Err(e) => Err(PoisonError::new((e.into_inner(), false))),
            }
        }
    }

    // ---------------------------------------------------------------- atomics
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::fmt;
        use ::std::sync::atomic as real;

        macro_rules! common {
            ($n:ident, $t:ty) => {
                #[derive(Default)]
                pub struct $n(real::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(real::$n::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mcrt::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mcrt::point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        mcrt::point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mcrt::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mcrt::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                        mcrt::point();
                        self.0.fetch_update(s, l, f)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        mcrt::point();
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        mcrt::point();
                        self.0.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        mcrt::point();
                        self.0.fetch_xor(v, o)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                }
                impl fmt::Debug for $n {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! ints {
            ($($n:ident $t:ty),*) => { $(
                common!($n, $t);
                impl $n {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { mcrt::point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { mcrt::point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { mcrt::point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { mcrt::point(); self.0.fetch_min(v, o) }
                }
            )* };
        }
        common!(AtomicBool, bool);
        ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        mcrt::yield_point()
    }
    pub fn sleep(d: ::std::time::Duration) {
        if mcrt::active() {
            mcrt::sleep(d)
        } else {
            ::std::thread::sleep(d)
        }
    }
}

pub mod time {
    pub use ::std::time::*;
    use ::std::ops::*;
    use ::std::sync::OnceLock;

    /// The virtual clock inside an execution, the real one elsewhere.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(Duration);
    static BASE: OnceLock<::std::time::Instant> = OnceLock::new();
    const OFFSET: Duration = Duration::from_secs(1 << 30);
    impl Instant {
        pub fn now() -> Self {
            match mcrt::now() {
                Some(n) => Instant(OFFSET + Duration::from_nanos(n)),
                None => Instant(OFFSET + BASE.get_or_init(::std::time::Instant::now).elapsed()),
            }
        }
        /// nanoseconds of the virtual clock
        pub fn virtual_nanos(&self) -> u64 {
            self.0.saturating_sub(OFFSET).as_nanos() as u64
        }
        pub fn from_virtual(n: u64) -> Self {
            Instant(OFFSET + Duration::from_nanos(n))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().0.saturating_sub(self.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
        pub fn from_std(i: Instant) -> Self {
            i
        }
        pub fn into_std(self) -> Self {
            self
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    /// The wall clock: some day plus the virtual clock inside an execution.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct SystemTime(::std::time::SystemTime);
    pub const UNIX_EPOCH: SystemTime = SystemTime::UNIX_EPOCH;
    impl SystemTime {
        pub const UNIX_EPOCH: SystemTime = SystemTime(::std::time::UNIX_EPOCH);
        pub fn now() -> Self {
            SystemTime(match mcrt::now() {
                Some(n) => ::std::time::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + Duration::from_nanos(n),
                None => ::std::time::SystemTime::now(),
            })
        }
        pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
            self.0.duration_since(o.0)
        }
        pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
            Self::now().0.duration_since(self.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
            self.0.checked_add(d).map(SystemTime)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
            self.0.checked_sub(d).map(SystemTime)
        }
    }
    impl Add<Duration> for SystemTime {
        type Output = SystemTime;
        fn add(self, d: Duration) -> SystemTime {
            SystemTime(self.0 + d)
        }
    }
    impl Sub<Duration> for SystemTime {
        type Output = SystemTime;
        fn sub(self, d: Duration) -> SystemTime {
            SystemTime(self.0 - d)
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
}
