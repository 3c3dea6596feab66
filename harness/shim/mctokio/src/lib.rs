//! `tokio` as the library under test sees it: tasks run on the controlled scheduler, UDP
//! sockets belong to a simulated network, time is virtual, and the starting branch of
//! select! is a choice of the explorer. Everything else is the real tokio.
pub use ::tokio as __real;
pub use ::tokio::*;

pub fn spawn<F>(f: F) -> task::JoinHandle<F::Output>
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    task::spawn(f)
}

#[doc(hidden)]
pub fn __select_start(n: u32) -> u32 {
    mcrt::choose_select(n as usize) as u32
}

#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__real::select!(biased; $($t)*) };
    (else => $($t:tt)*) => { $crate::__real::select!(else => $($t)*) };
    ($($t:tt)+) => { $crate::__real::select!(@{ start={ $crate::__select_start(BRANCHES) }; () } $($t)+) };
}

pub mod task {
    pub use ::tokio::task::*;
    use std::any::Any;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    pub struct JoinError {
        panic: Option<Box<dyn Any + Send>>,
    }
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            self.panic.is_some()
        }
        pub fn is_cancelled(&self) -> bool {
            self.panic.is_none()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send> {
            self.panic.expect("not a panic")
        }
        pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
            match self.panic {
                Some(p) => Ok(p),
                None => Err(JoinError { panic: None }),
            }
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinError({})", if self.panic.is_some() { "panic" } else { "cancelled" })
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "task {}", if self.panic.is_some() { "panicked" } else { "was cancelled" })
        }
    }
    impl std::error::Error for JoinError {}
    // a panic payload is only ever moved
    unsafe impl Sync for JoinError {}

    struct Slot<T> {
        v: Option<Result<T, JoinError>>,
        done: bool,
        wakers: Vec<Waker>,
    }
    pub struct JoinHandle<T> {
        id: usize,
        s: Arc<Mutex<Slot<T>>>,
    }
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinHandle({})", self.id)
        }
    }
    #[derive(Clone, Debug)]
    pub struct AbortHandle {
        id: usize,
    }
    impl AbortHandle {
        pub fn abort(&self) {
            mcrt::point();
            mcrt::cancel(self.id)
        }
        pub fn is_finished(&self) -> bool {
            mcrt::is_done(self.id)
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            mcrt::point();
            mcrt::cancel(self.id)
        }
        pub fn is_finished(&self) -> bool {
            mcrt::point();
            self.s.lock().unwrap().done
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle { id: self.id }
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            mcrt::point();
            let mut s = self.s.lock().unwrap();
            if s.done {
                Poll::Ready(s.v.take().expect("JoinHandle polled after completion"))
            } else {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    fn finish<T>(s: &Mutex<Slot<T>>, e: mcrt::Ended<T>) {
        let ws = {
            let mut s = s.lock().unwrap();
            s.done = true;
            s.v = Some(match e {
                mcrt::Ended::Value(v) => Ok(v),
                mcrt::Ended::Panicked(p) => Err(JoinError { panic: Some(p) }),
                mcrt::Ended::Cancelled => Err(JoinError { panic: None }),
            });
            std::mem::take(&mut s.wakers)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let s = Arc::new(Mutex::new(Slot { v: None, done: false, wakers: vec![] }));
        let s2 = s.clone();
        mcrt::trace(|| "spawns a task".into());
        let id = mcrt::spawn("task", move || {
            let e = mcrt::drive(f);
            finish(&s2, e);
        });
        mcrt::point();
        JoinHandle { id, s }
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let s = Arc::new(Mutex::new(Slot { v: None, done: false, wakers: vec![] }));
        let s2 = s.clone();
        let id = mcrt::spawn("blocking", move || {
            let e = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => mcrt::Ended::Value(v),
                Err(p) => mcrt::Ended::Panicked(p),
            };
            finish(&s2, e);
        });
        mcrt::point();
        JoinHandle { id, s }
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
    pub async fn yield_now() {
        let mut first = true;
        std::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await
    }

    /// a plain JoinSet
    pub struct JoinSet<T> {
        v: Vec<JoinHandle<T>>,
    }
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet { v: vec![] }
        }
        pub fn len(&self) -> usize {
            self.v.len()
        }
        pub fn is_empty(&self) -> bool {
            self.v.is_empty()
        }
        pub fn abort_all(&mut self) {
            for h in &self.v {
                h.abort()
            }
        }
        pub fn detach_all(&mut self) {
            self.v.clear()
        }
    }
    impl<T: Send + 'static> JoinSet<T> {
        pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle {
            let h = spawn(f);
            let a = h.abort_handle();
            self.v.push(h);
            a
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| {
                if self.v.is_empty() {
                    return Poll::Ready(None);
                }
                for i in 0..self.v.len() {
                    if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                        self.v.remove(i);
                        return Poll::Ready(Some(r));
                    }
                }
                Poll::Pending
            })
            .await
        }
        pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
            let i = self.v.iter().position(|h| h.is_finished())?;
            let h = self.v.remove(i);
            let r = h.s.lock().unwrap().v.take();
            r
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.v {
                h.abort()
            }
        }
    }
}

pub mod runtime {
    pub use ::tokio::runtime::*;
    use std::future::Future;
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self {
            Handle
        }
        pub fn try_current() -> Result<Self, std::convert::Infallible> {
            Ok(Handle)
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}

pub mod sync {
    pub use ::tokio::sync::*;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use ::std::sync::Arc;
    use ::tokio::sync as real;

    /// tokio's mutex with a scheduling point before each acquisition (and, once somebody tries to
    /// take it without waiting, before each release)
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized> {
        tried: AtomicBool,
        inner: real::Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex { tried: AtomicBool::new(false), inner: real::Mutex::new(t) }
        }
        pub const fn const_new(t: T) -> Self {
            Mutex { tried: AtomicBool::new(false), inner: real::Mutex::const_new(t) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            mcrt::point();
            MutexGuard { tried: &self.tried, g: self.inner.lock().await }
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            self.tried.store(true, SeqCst);
            mcrt::point();
            Ok(MutexGuard { tried: &self.tried, g: self.inner.try_lock()? })
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized> {
        tried: AtomicBool,
        inner: real::RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock { tried: AtomicBool::new(false), inner: real::RwLock::new(t) }
        }
        pub const fn const_new(t: T) -> Self {
            RwLock { tried: AtomicBool::new(false), inner: real::RwLock::const_new(t) }
        }
        pub fn into_inner(self) -> T {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            mcrt::point();
            RwLockReadGuard { tried: &self.tried, g: self.inner.read().await }
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            mcrt::point();
            RwLockWriteGuard { tried: &self.tried, g: self.inner.write().await }
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            self.tried.store(true, SeqCst);
            mcrt::point();
            Ok(RwLockReadGuard { tried: &self.tried, g: self.inner.try_read()? })
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            self.tried.store(true, SeqCst);
            mcrt::point();
            Ok(RwLockWriteGuard { tried: &self.tried, g: self.inner.try_write()? })
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
    }
    macro_rules! guard {
        ($name:ident) => {
            #[derive(Debug)]
            pub struct $name<'a, T: ?Sized> {
                tried: &'a AtomicBool,
                g: real::$name<'a, T>,
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
            impl<T: ?Sized> Drop for $name<'_, T> {
                fn drop(&mut self) {
                    if self.tried.load(SeqCst) && !::std::thread::panicking() {
                        mcrt::point();
                    }
                }
            }
        };
    }
    guard!(MutexGuard);
    guard!(RwLockReadGuard);
    guard!(RwLockWriteGuard);
    // guards that keep the lock alive: the guard goes before the Arc
    macro_rules! owned {
        ($name:ident, $lock:ident, $guard:ident, $f:ident, $owned:ident, $tryf:ident, $tryowned:ident) => {
            #[derive(Debug)]
            pub struct $name<T: ?Sized + 'static> {
                g: Option<$guard<'static, T>>,
                _lock: Arc<$lock<T>>,
            }
            impl<T: ?Sized + 'static> $lock<T> {
                pub async fn $owned(self: Arc<Self>) -> $name<T> {
                    // the lock does not move and lives as long as the Arc beside it
                    let l: &'static $lock<T> = unsafe { &*Arc::as_ptr(&self) };
                    $name { g: Some(l.$f().await), _lock: self }
                }
                pub fn $tryowned(self: Arc<Self>) -> Result<$name<T>, TryLockError> {
                    let l: &'static $lock<T> = unsafe { &*Arc::as_ptr(&self) };
                    Ok($name { g: Some(l.$tryf()?), _lock: self })
                }
            }
            impl<T: ?Sized + 'static> Deref for $name<T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.g.as_ref().unwrap()
                }
            }
            impl<T: ?Sized + 'static> Drop for $name<T> {
                fn drop(&mut self) {
                    self.g = None;
                }
            }
        };
    }
    owned!(OwnedMutexGuard, Mutex, MutexGuard, lock, lock_owned, try_lock, try_lock_owned);
    owned!(OwnedRwLockReadGuard, RwLock, RwLockReadGuard, read, read_owned, try_read, try_read_owned);
    owned!(OwnedRwLockWriteGuard, RwLock, RwLockWriteGuard, write, write_owned, try_write, try_write_owned);
    impl<T: ?Sized + 'static> DerefMut for OwnedMutexGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized + 'static> DerefMut for OwnedRwLockWriteGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
}

pub mod time {
    pub use ::std::time::Duration;
    pub use mcstd::time::Instant;
    use std::fmt;
    use std::future::{Future, IntoFuture};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub mod error {
        use std::fmt;
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl fmt::Display for Elapsed {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                "deadline has elapsed".fmt(f)
            }
        }
        impl std::error::Error for Elapsed {}
        impl From<Elapsed> for std::io::Error {
            fn from(_: Elapsed) -> Self {
                std::io::ErrorKind::TimedOut.into()
            }
        }
    }
    use error::Elapsed;

    const FAR: Duration = Duration::from_secs(86400 * 365 * 30);

    /// tokio's timer has a resolution of one millisecond; deadlines are rounded up
    pub struct Sleep {
        at: u64,
        key: Option<(u64, u64)>,
    }
    impl Sleep {
        fn new(at: u64) -> Self {
            let ms = 1_000_000;
            Sleep { at: at.div_ceil(ms) * ms, key: None }
        }
        pub fn deadline(&self) -> Instant {
            Instant::from_virtual(self.at)
        }
        pub fn is_elapsed(&self) -> bool {
            mcrt::now().unwrap_or(0) >= self.at
        }
        pub fn reset(mut self: Pin<&mut Self>, d: Instant) {
            if let Some(k) = self.key.take() {
                mcrt::clear_timer(k);
            }
            self.at = d.virtual_nanos();
        }
    }
    impl fmt::Debug for Sleep {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Sleep({})", self.at)
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if let Some(k) = self.key.take() {
                mcrt::clear_timer(k);
            }
            if mcrt::now().expect("time outside an execution") >= self.at {
                return Poll::Ready(());
            }
            self.key = mcrt::set_timer(self.at, cx.waker().clone());
            Poll::Pending
        }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            if let Some(k) = self.key.take() {
                mcrt::clear_timer(k);
            }
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        let now = mcrt::now().expect("time outside an execution");
        Sleep::new(now + d.min(FAR).as_nanos() as u64)
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        Sleep::new(i.virtual_nanos())
    }

    pub struct Timeout<F> {
        f: F,
        s: Sleep,
    }
    impl<F> Timeout<F> {
        pub fn get_ref(&self) -> &F {
            &self.f
        }
        pub fn into_inner(self) -> F {
            self.f
        }
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, Elapsed>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let (f, s) = unsafe {
                let t = self.get_unchecked_mut();
                (Pin::new_unchecked(&mut t.f), Pin::new_unchecked(&mut t.s))
            };
            if let Poll::Ready(v) = f.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            s.poll(cx).map(|_| Err(Elapsed(())))
        }
    }
    pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
        Timeout { f: f.into_future(), s: sleep(d) }
    }
    pub fn timeout_at<F: IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> {
        Timeout { f: f.into_future(), s: sleep_until(i) }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    #[derive(Debug)]
    pub struct Interval {
        next: u64,
        period: u64,
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            self.next += self.period;
            Sleep::new(at).await;
            Instant::from_virtual(at)
        }
        pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period)
        }
        pub fn reset(&mut self) {
            self.next = mcrt::now().unwrap_or(0) + self.period;
        }
    }
    pub fn interval(d: Duration) -> Interval {
        Interval { next: mcrt::now().unwrap_or(0), period: d.as_nanos() as u64 }
    }
    pub fn interval_at(i: Instant, d: Duration) -> Interval {
        Interval { next: i.virtual_nanos(), period: d.as_nanos() as u64 }
    }
}

pub mod net;
