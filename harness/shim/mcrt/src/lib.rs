//! Controlled scheduler for stateless model checking.
//!
//! An execution consists of logical threads, each carried by an OS thread of a pool; only
//! the one holding the baton runs. At every visible operation (lock, atomic, socket, spawn,
//! yield, ...) the scheduler decides who continues. All decisions, and the choices of the
//! environment, are taken from one choice sequence, which `explore` enumerates completely
//! within the given budgets. Time is virtual.
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// waits for a resource (address) inside a synchronous operation
    Sync(usize),
    /// an asynchronous task waits for its waker
    Async,
    /// waits until nothing else can run
    Idle,
    /// waits for the virtual clock
    Time(u64),
    Done,
}

struct Th {
    status: Status,
    os: Option<std::thread::Thread>,
    steps: u64,
    notified: bool,
    cancel: bool,
    yielded: bool,
    name: &'static str,
}

/// Where a choice came from.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Sched,
    Select,
    Env,
}

#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub n: u32,
    pub chosen: u32,
    pub kind: Kind,
}

#[derive(Clone, Copy, Debug)]
pub struct Budget {
    /// preemptive context switches per execution
    pub preemptions: u32,
    /// other choices than the first when the running thread blocks or ends
    pub switches: u32,
    /// select! polls starting at another branch than the first
    pub selects: u32,
    /// steps per execution
    pub steps: u64,
}
impl Default for Budget {
    fn default() -> Self {
        Budget { preemptions: 2, switches: u32::MAX, selects: 1, steps: 20_000 }
    }
}

struct Inner {
    threads: Vec<Th>,
    clock: u64,
    timers: BTreeMap<(u64, u64), (usize, Waker)>,
    pending: Vec<Waker>,
    timer_seq: u64,
    prefix: Vec<u32>,
    log: Vec<Choice>,
    budget: Budget,
    preempt: u32,
    switches: u32,
    selects: u32,
    steps: u64,
    step_limit: u64,
    draining: bool,
    over: bool,
    diverged: Option<String>,
    states: Vec<u64>,
    user: u64,
    fails: Vec<String>,
    trace: Option<Vec<String>>,
}

pub struct Exec {
    inner: Mutex<Inner>,
    baton: AtomicUsize,
    ext: Mutex<HashMap<TypeId, Arc<dyn Any + Send + Sync>>>,
    live: Mutex<usize>,
    live_cv: Condvar,
    heartbeat: Arc<AtomicU64>,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn current() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
pub fn active() -> bool {
    current().is_some()
}

const NOBODY: usize = usize::MAX;

impl Exec {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// choose among n; must be called with the baton
    fn pick(g: &mut Inner, n: usize, kind: Kind) -> usize {
        if n <= 1 || g.draining {
            return 0;
        }
        match kind {
            Kind::Select if g.selects == 0 => return 0,
            _ => {}
        }
        let pos = g.log.len();
        let c = if pos < g.prefix.len() {
            let c = g.prefix[pos] as usize;
            if c >= n {
                if g.diverged.is_none() {
                    g.diverged = Some(format!("choice {pos}: {c} of {n} ({kind:?})"));
                }
                0
            } else {
                c
            }
        } else {
            0
        };
        g.log.push(Choice { n: n as u32, chosen: c as u32, kind });
        if kind == Kind::Select && c > 0 {
            g.selects -= 1;
        }
        c
    }

    fn note_state(g: &mut Inner) {
        let mut h = 0xcbf29ce484222325u64 ^ g.user;
        for t in &g.threads {
            let s = match t.status {
                Status::Ready => 1,
                Status::Sync(_) => 2,
                Status::Async => 3 + t.notified as u64,
                Status::Idle => 5,
                Status::Time(_) => 6,
                Status::Done => 7,
            };
            h = (h ^ (t.steps * 8 + s)).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 31;
        }
        if !g.draining {
            g.states.push(h);
        }
    }

    /// who goes on when `me` cannot (or need not): returns the next thread
    fn next(g: &mut Inner, me: usize, me_ready: bool) -> usize {
        loop {
            let mut opts: Vec<usize> = vec![];
            let yielding = g.threads[me].yielded;
            if me_ready && !yielding {
                opts.push(me);
            }
            for (i, t) in g.threads.iter().enumerate() {
                if (i != me || !me_ready) && t.status == Status::Ready {
                    opts.push(i);
                }
            }
            if me_ready && yielding {
                if opts.is_empty() {
                    opts.push(me);
                }
                g.threads[me].yielded = false;
                if g.switches == 0 && !g.draining {
                    // no alternatives are wanted: round robin
                    let n = opts.iter().copied().filter(|i| *i > me).min().unwrap_or(opts[0]);
                    opts = vec![n];
                }
            } else if !g.draining && (me_ready && g.preempt == 0 || !me_ready && g.switches == 0) {
                opts.truncate(1);
            }
            if g.draining && opts.len() > 1 {
                // fair round robin
                return opts.iter().copied().filter(|i| *i > me).min().unwrap_or_else(|| *opts.iter().min().unwrap());
            }
            if !opts.is_empty() {
                let c = Self::pick(g, opts.len(), Kind::Sched);
                if me_ready && !yielding && c > 0 && !g.draining {
                    g.preempt -= 1;
                } else if !me_ready && c > 0 && !g.draining && g.switches != u32::MAX {
                    g.switches -= 1;
                }
                return opts[c];
            }
            // nothing can run: the environment, then the clock
            if let Some(i) = g.threads.iter().position(|t| t.status == Status::Idle) {
                g.threads[i].status = Status::Ready;
                return i;
            }
            let tt = g
                .threads
                .iter()
                .filter_map(|t| if let Status::Time(x) = t.status { Some(x) } else { None })
                .min();
            let ft = g.timers.keys().next().map(|k| k.0);
            let at = match (tt, ft) {
                (Some(a), Some(b)) => a.min(b),
                (Some(a), None) => a,
                (None, Some(b)) => b,
                (None, None) => return NOBODY,
            };
            Self::advance(g, at);
        }
    }

    fn advance(g: &mut Inner, at: u64) {
        g.clock = g.clock.max(at);
        for t in g.threads.iter_mut() {
            if let Status::Time(x) = t.status {
                if x <= at {
                    t.status = Status::Ready;
                }
            }
        }
        while let Some((&k, _)) = g.timers.iter().next() {
            if k.0 > at {
                break;
            }
            let (id, w) = g.timers.remove(&k).unwrap();
            // the task is woken at once; its waker (it may belong to a combinator) is
            // called by whoever gets the baton, outside of the lock
            wake_locked(g, id);
            g.pending.push(w);
        }
    }

    fn step(g: &mut Inner, me: usize) {
        g.steps += 1;
        g.threads[me].steps += 1;
        if g.steps > g.step_limit {
            g.over = true;
            g.draining = true;
        }
        if g.steps > HARD_STEPS.max(g.step_limit.saturating_mul(2)) {
            drop_dead();
        }
        Self::note_state(g);
    }

    /// A visible operation of thread `me` follows.
    fn switch(self: &Arc<Self>, me: usize, yielding: bool) {
        self.heartbeat.fetch_add(1, Ordering::Relaxed);
        let mut g = self.lock();
        Self::step(&mut g, me);
        g.threads[me].yielded = yielding;
        let n = Self::next(&mut g, me, true);
        if n != me {
            self.hand(g, me, n);
        } else {
            drop(g);
        }
        self.run_pending();
    }

    /// `me` waits until its status is Ready again and the baton returns.
    fn block(self: &Arc<Self>, me: usize, st: Status) {
        self.heartbeat.fetch_add(1, Ordering::Relaxed);
        let mut g = self.lock();
        g.threads[me].status = st;
        Self::step(&mut g, me);
        let n = Self::next(&mut g, me, false);
        if n == me {
            // status was reset to Ready by next()
            drop(g);
        } else {
            self.hand(g, me, n);
        }
        self.run_pending();
    }

    fn run_pending(&self) {
        let v = std::mem::take(&mut self.lock().pending);
        for w in v {
            w.wake();
        }
    }

    /// Nothing can run and the driver waits for something that cannot happen.
    fn dead(g: &mut Inner) -> usize {
        if !g.draining {
            g.fails.push("deadlock: no thread can run".into());
        }
        if g.threads[0].status == Status::Async {
            g.threads[0].cancel = true;
            g.threads[0].status = Status::Ready;
            g.draining = true;
            0
        } else {
            NOBODY
        }
    }

    fn hand(self: &Arc<Self>, mut g: MutexGuard<'_, Inner>, me: usize, n: usize) {
        self.give(&mut g, n);
        drop(g);
        while self.baton.load(Ordering::SeqCst) != me {
            std::thread::park();
        }
    }

    /// the thread ends; the baton goes on
    fn finish(self: &Arc<Self>, me: usize) {
        let mut g = self.lock();
        g.threads[me].status = Status::Done;
        g.threads[me].os = None;
        Self::step(&mut g, me);
        let n = Self::next(&mut g, me, false);
        self.give(&mut g, n);
    }

    fn give(&self, g: &mut Inner, n: usize) {
        let n = if n == NOBODY { Self::dead(g) } else { n };
        self.baton.store(n, Ordering::SeqCst);
        if n != NOBODY {
            if let Some(os) = &g.threads[n].os {
                os.unpark();
            }
        }
    }
}

/// No execution within the bounds comes near this.
const HARD_STEPS: u64 = 2_000_000;
fn drop_dead() -> ! {
    if let Some(f) = ON_HANG.lock().unwrap_or_else(|e| e.into_inner()).take() {
        f(usize::MAX, vec![]);
    }
    std::process::exit(3)
}

// ------------------------------------------------------------------ operations

/// A scheduling point before a visible operation.
pub fn point() {
    if let Some((e, me)) = current() {
        e.switch(me, false);
    }
}

/// Let others run.
pub fn yield_point() {
    if let Some((e, me)) = current() {
        e.switch(me, true);
    } else {
        std::thread::yield_now();
    }
}

/// Wait until `notify(addr)`.
pub fn wait_on(addr: usize) {
    let (e, me) = current().expect("mcrt::wait_on outside an execution");
    e.block(me, Status::Sync(addr));
}

pub fn notify(addr: usize) {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        for t in g.threads.iter_mut() {
            if t.status == Status::Sync(addr) {
                t.status = Status::Ready;
            }
        }
    }
}

pub fn notify_one(addr: usize) {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        if let Some(t) = g.threads.iter_mut().find(|t| t.status == Status::Sync(addr)) {
            t.status = Status::Ready;
        }
    }
}

/// Wait until no other thread can run (without moving the clock).
pub fn quiesce() {
    let (e, me) = current().expect("mcrt::quiesce outside an execution");
    e.block(me, Status::Idle);
}

/// Sleep in virtual time.
pub fn sleep(d: Duration) {
    let (e, me) = current().expect("mcrt::sleep outside an execution");
    let at = e.lock().clock + d.as_nanos() as u64;
    e.block(me, Status::Time(at));
}

/// The virtual clock in nanoseconds.
pub fn now() -> Option<u64> {
    current().map(|(e, _)| e.lock().clock)
}

/// Arm a virtual timer; returns its key.
pub fn set_timer(at: u64, w: Waker) -> Option<(u64, u64)> {
    let (e, me) = current()?;
    let mut g = e.lock();
    g.timer_seq += 1;
    let k = (at, g.timer_seq);
    g.timers.insert(k, (me, w));
    Some(k)
}
pub fn clear_timer(k: (u64, u64)) {
    if let Some((e, _)) = current() {
        e.lock().timers.remove(&k);
    }
}

/// A choice of the environment.
pub fn choose(n: usize) -> usize {
    match current() {
        Some((e, _)) => Exec::pick(&mut e.lock(), n, Kind::Env),
        None => 0,
    }
}
/// A choice of tokio's select!.
pub fn choose_select(n: usize) -> usize {
    match current() {
        Some((e, _)) => Exec::pick(&mut e.lock(), n, Kind::Select),
        None => 0,
    }
}

/// From here on only the choices of the environment branch.
pub fn freeze() {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        g.preempt = 0;
        g.switches = 0;
        g.selects = 0;
    }
}

/// Undo `freeze`: the full budget again.
pub fn thaw() {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        let b = g.budget;
        g.preempt = b.preemptions;
        g.switches = b.switches;
        g.selects = b.selects;
    }
}

/// Report a violation in this execution.
pub fn fail(s: impl Into<String>) {
    if let Some((e, _)) = current() {
        let s = s.into();
        let mut g = e.lock();
        if !g.draining {
            g.fails.push(s);
        }
    }
}
/// Mix into the state hash.
pub fn digest(x: u64) {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        g.user = (g.user ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        g.user ^= g.user >> 29;
    }
}
/// Write into the trace of the execution (only if traces are wanted).
pub fn trace(f: impl FnOnce() -> String) {
    if let Some((e, me)) = current() {
        let mut g = e.lock();
        if g.draining || g.trace.is_none() {
            return;
        }
        let clock = g.clock;
        let name = g.threads[me].name;
        let s = f();
        g.trace.as_mut().unwrap().push(format!("[{name}{me} t={}ms] {s}", clock / 1_000_000));
    }
}
pub fn draining() -> bool {
    current().is_some_and(|(e, _)| e.lock().draining)
}

/// Per-execution singleton.
pub fn ext<T: Default + Send + Sync + 'static>() -> Option<Arc<T>> {
    let (e, _) = current()?;
    let mut m = e.ext.lock().unwrap_or_else(|e| e.into_inner());
    let a = m.entry(TypeId::of::<T>()).or_insert_with(|| Arc::new(T::default())).clone();
    drop(m);
    a.downcast::<T>().ok()
}

// ------------------------------------------------------------------ threads and tasks

type Job = Box<dyn FnOnce() + Send>;
type Slot = (std::sync::mpsc::Sender<Job>, std::thread::Thread);
static IDLE: Mutex<Vec<Slot>> = Mutex::new(vec![]);

/// an idle pool thread
fn pool_thread() -> Slot {
    if let Some(s) = IDLE.lock().unwrap().pop() {
        return s;
    }
    let (tx, rx) = std::sync::mpsc::channel::<Job>();
    let tx2 = tx.clone();
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            while let Ok(j) = rx.recv() {
                j();
                IDLE.lock().unwrap().push((tx2.clone(), std::thread::current()));
            }
        })
        .expect("spawn a pool thread");
    (tx, h.thread().clone())
}

/// A logical thread running `f`.
pub fn spawn(name: &'static str, f: impl FnOnce() + Send + 'static) -> usize {
    let (e, _) = current().expect("mcrt::spawn outside an execution");
    spawn_in(&e, name, f)
}

fn spawn_in(e: &Arc<Exec>, name: &'static str, f: impl FnOnce() + Send + 'static) -> usize {
    let (tx, os) = pool_thread();
    let id = {
        let mut g = e.lock();
        g.threads.push(Th { status: Status::Ready, os: Some(os), steps: 0, notified: false, cancel: false, yielded: false, name });
        g.threads.len() - 1
    };
    *e.live.lock().unwrap() += 1;
    let e2 = e.clone();
    let job: Job = Box::new(move || {
        while e2.baton.load(Ordering::SeqCst) != id {
            std::thread::park();
        }
        CUR.with(|c| *c.borrow_mut() = Some((e2.clone(), id)));
        e2.run_pending();
        let _ = catch_unwind(AssertUnwindSafe(f));
        e2.finish(id);
        CUR.with(|c| *c.borrow_mut() = None);
        let mut l = e2.live.lock().unwrap();
        *l -= 1;
        e2.live_cv.notify_all();
    });
    tx.send(job).expect("pool thread");
    id
}

struct TaskWaker {
    exec: std::sync::Weak<Exec>,
    id: usize,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(e) = self.exec.upgrade() {
            wake_locked(&mut e.lock(), self.id);
        }
    }
}
fn wake_locked(g: &mut Inner, id: usize) {
    let t = &mut g.threads[id];
    match t.status {
        Status::Async => t.status = Status::Ready,
        Status::Done => {}
        _ => t.notified = true,
    }
}
pub enum Ended<T> {
    Value(T),
    Panicked(Box<dyn Any + Send>),
    Cancelled,
}

/// Drive a future to its end on the current logical thread.
pub fn drive<T>(fut: impl Future<Output = T>) -> Ended<T> {
    let (e, me) = current().expect("mcrt::drive outside an execution");
    let waker = Waker::from(Arc::new(TaskWaker { exec: Arc::downgrade(&e), id: me }));
    let mut cx = Context::from_waker(&waker);
    let mut fut: Option<Pin<Box<dyn Future<Output = T> + '_>>> = Some(Box::pin(fut));
    let r = loop {
        {
            let mut g = e.lock();
            if g.threads[me].cancel {
                drop(g);
                break Ended::Cancelled;
            }
            g.threads[me].notified = false;
        }
        match catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut cx))) {
            Err(p) => break Ended::Panicked(p),
            Ok(Poll::Ready(v)) => break Ended::Value(v),
            Ok(Poll::Pending) => {
                let again = {
                    let mut g = e.lock();
                    let t = &mut g.threads[me];
                    std::mem::take(&mut t.notified) || t.cancel
                };
                if again {
                    e.switch(me, true);
                } else {
                    e.block(me, Status::Async);
                }
            }
        }
    };
    // dropping a future may run library code
    let f = fut.take();
    let dropped = catch_unwind(AssertUnwindSafe(move || drop(f)));
    match (r, dropped) {
        (Ended::Value(_) | Ended::Cancelled, Err(p)) => Ended::Panicked(p),
        (r, _) => r,
    }
}

/// Ask a task to stop at its next suspension.
pub fn cancel(id: usize) {
    if let Some((e, _)) = current() {
        let mut g = e.lock();
        g.threads[id].cancel = true;
        if g.threads[id].status == Status::Async {
            g.threads[id].status = Status::Ready;
        }
    }
}
pub fn is_done(id: usize) -> bool {
    current().is_none_or(|(e, _)| e.lock().threads[id].status == Status::Done)
}
/// threads blocked in a synchronous operation (deadlocked, if nothing can run)
pub fn sync_blocked() -> usize {
    current().map_or(0, |(e, _)| e.lock().threads.iter().filter(|t| matches!(t.status, Status::Sync(_))).count())
}

// ------------------------------------------------------------------ exploration

pub struct Outcome {
    pub fails: Vec<String>,
    pub log: Vec<Choice>,
    pub steps: u64,
    pub over: bool,
    pub diverged: Option<String>,
    pub trace: Vec<String>,
    pub leaked: usize,
}

/// One execution of `driver` following `prefix`, then the first option everywhere.
pub fn run_once(prefix: &[u32], b: Budget, want_trace: bool, hb: Arc<AtomicU64>, states: &mut Vec<u64>, driver: &(dyn Fn() + Sync)) -> Outcome {
    let e = Arc::new(Exec {
        inner: Mutex::new(Inner {
            threads: vec![Th { status: Status::Ready, os: Some(std::thread::current()), steps: 0, notified: false, cancel: false, yielded: false, name: "driver" }],
            clock: 0,
            timers: BTreeMap::new(),
            pending: vec![],
            timer_seq: 0,
            prefix: prefix.to_vec(),
            log: vec![],
            budget: b,
            preempt: b.preemptions,
            switches: b.switches,
            selects: b.selects,
            steps: 0,
            step_limit: b.steps,
            draining: false,
            over: false,
            diverged: None,
            states: vec![],
            user: 0,
            fails: vec![],
            trace: want_trace.then(Vec::new),
        }),
        baton: AtomicUsize::new(0),
        ext: Mutex::new(HashMap::new()),
        live: Mutex::new(0),
        live_cv: Condvar::new(),
        heartbeat: hb,
    });
    CUR.with(|c| *c.borrow_mut() = Some((e.clone(), 0)));
    let r = catch_unwind(AssertUnwindSafe(driver));
    if r.is_err() {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        e.lock().fails.push(format!("panic: {p}"));
    }
    // let everything end: cancel what waits, without further branching
    let (fails, log, trace, over, diverged, steps) = {
        let mut g = e.lock();
        let over = g.over;
        let diverged = g.diverged.clone();
        g.draining = true;
        g.step_limit = u64::MAX;
        (std::mem::take(&mut g.fails), std::mem::take(&mut g.log), g.trace.take().unwrap_or_default(), over, diverged, g.steps)
    };
    for _ in 0..50 {
        let left = {
            let mut g = e.lock();
            for t in g.threads.iter_mut().skip(1) {
                if t.status != Status::Done {
                    t.cancel = true;
                    if matches!(t.status, Status::Async | Status::Time(_)) {
                        t.status = Status::Ready;
                    }
                }
            }
            g.threads.iter().skip(1).filter(|t| t.status == Status::Ready).count()
        };
        if left == 0 {
            break;
        }
        e.block(0, Status::Idle);
    }
    let leaked = e.lock().threads.iter().skip(1).filter(|t| t.status != Status::Done).count();
    CUR.with(|c| *c.borrow_mut() = None);
    if leaked == 0 {
        let mut l = e.live.lock().unwrap();
        while *l > 0 {
            l = e.live_cv.wait(l).unwrap();
        }
    }
    e.ext.lock().unwrap().clear();
    states.append(&mut e.lock().states);
    Outcome { fails, log, steps, over, diverged, trace, leaked }
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub steps: u64,
    pub states: HashSet<u64>,
    pub over: u64,
    pub diverged: Vec<String>,
    /// (choice sequence, message, trace)
    pub fails: Vec<(Vec<u32>, String, Vec<String>)>,
    pub complete: bool,
    pub leaked: u64,
    pub max_choices: usize,
    pub samples: Vec<Vec<String>>,
    pub hang: Option<String>,
}

/// told the text of every panic
pub static ON_PANIC: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        if let Some(f) = ON_PANIC.get() {
            f(&s)
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}

struct Shared {
    /// prefixes still to be executed, per scenario
    q: Mutex<Vec<Vec<Vec<u32>>>>,
    busy: AtomicUsize,
    stop: AtomicBool,
}

/// Enumerate all executions of all scenarios (each a driver with its budget).
pub fn explore(scenarios: &[(String, Budget)], driver: &(dyn Fn(usize) + Sync), deadline: Instant, max_exec: u64, workers: usize) -> Vec<Report> {
    let sh = Shared { q: Mutex::new((0..scenarios.len()).map(|_| vec![vec![]]).collect()), busy: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let reports: Vec<Mutex<Report>> = scenarios.iter().map(|_| Mutex::new(Report { complete: true, ..Default::default() })).collect();
    let counts: Vec<AtomicU64> = scenarios.iter().map(|_| AtomicU64::new(0)).collect();
    // time used by each scenario, and its fair share
    let used: Vec<AtomicU64> = scenarios.iter().map(|_| AtomicU64::new(0)).collect();
    let share = deadline.saturating_duration_since(Instant::now()).as_micros() as u64 * workers as u64 / scenarios.len().max(1) as u64;
    // when something was found, the rest is looked at only for a little longer
    let first_fail: Mutex<Option<Instant>> = Mutex::new(None);
    let slots: Vec<(Arc<AtomicU64>, Mutex<Option<(usize, Vec<u32>, u64, Instant)>>)> = (0..workers).map(|_| (Arc::new(AtomicU64::new(0)), Mutex::new(None))).collect();
    let finished = AtomicBool::new(false);
    let hung: Mutex<Option<(usize, Vec<u32>)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        // watchdog: a step that does not end
        let (slots_r, finished_r, hung_r, sh_r) = (&slots, &finished, &hung, &sh);
        sc.spawn(move || {
            while !finished_r.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for (hb, s) in slots_r {
                    let mut s = s.lock().unwrap();
                    if let Some((i, p, last, since)) = s.as_mut() {
                        let h = hb.load(Ordering::Relaxed);
                        if h != *last {
                            *last = h;
                            *since = Instant::now();
                        } else if since.elapsed() > Duration::from_secs(30) {
                            *hung_r.lock().unwrap() = Some((*i, p.clone()));
                            sh_r.stop.store(true, Ordering::SeqCst);
                            HUNG.lock().unwrap().get_or_insert((*i, p.clone()));
                            if let Some(f) = ON_HANG.lock().unwrap().take() {
                                f(*i, p.clone());
                            }
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        let mut hs = vec![];
        for w in 0..workers {
            let (sh, reports, counts, slots, used, first_fail) = (&sh, &reports, &counts, &slots, &used, &first_fail);
            hs.push(sc.spawn(move || {
                loop {
                    if sh.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let job = {
                        let mut q = sh.q.lock().unwrap();
                        // earlier scenarios first unless they have used up their share, depth first
                        let i = (0..q.len()).filter(|i| !q[*i].is_empty()).min_by_key(|i| {
                            let u = used[*i].load(Ordering::Relaxed);
                            (u > share, if u > share { u } else { 0 }, *i)
                        });
                        let j = i.map(|i| (i, q[i].pop().unwrap()));
                        if j.is_some() {
                            sh.busy.fetch_add(1, Ordering::SeqCst);
                        } else if sh.busy.load(Ordering::SeqCst) == 0 {
                            break;
                        }
                        j
                    };
                    let Some((i, prefix)) = job else {
                        std::thread::sleep(Duration::from_micros(200));
                        continue;
                    };
                    let n = counts[i].fetch_add(1, Ordering::Relaxed);
                    let t0 = Instant::now();
                    if n >= max_exec || t0 > deadline || first_fail.lock().unwrap().is_some_and(|t: Instant| t.elapsed() > Duration::from_secs(15)) {
                        reports[i].lock().unwrap().complete = false;
                        sh.busy.fetch_sub(1, Ordering::SeqCst);
                        continue;
                    }
                    let (hb, slot) = &slots[w];
                    *slot.lock().unwrap() = Some((i, prefix.clone(), hb.load(Ordering::Relaxed), Instant::now()));
                    let mut states = vec![];
                    let sample = n == 0;
                    let o = run_once(&prefix, scenarios[i].1, sample, hb.clone(), &mut states, &|| driver(i));
                    *slot.lock().unwrap() = None;
                    // siblings of every choice beyond the prefix
                    let mut new = vec![];
                    if o.diverged.is_none() {
                        for pos in prefix.len()..o.log.len() {
                            let c = o.log[pos];
                            for k in (1..c.n).rev() {
                                let mut p: Vec<u32> = o.log[..pos].iter().map(|c| c.chosen).collect();
                                p.push(k);
                                new.push(p);
                            }
                        }
                    }
                    used[i].fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
                    let mut failed = vec![];
                    if !o.fails.is_empty() {
                        first_fail.lock().unwrap().get_or_insert(t0);
                        let full: Vec<u32> = o.log.iter().map(|c| c.chosen).collect();
                        let t = run_once(&full, scenarios[i].1, true, hb.clone(), &mut vec![], &|| driver(i));
                        for f in o.fails {
                            failed.push((full.clone(), f, t.trace.clone()));
                        }
                    }
                    {
                        let mut r = reports[i].lock().unwrap();
                        r.executions += 1;
                        r.steps += o.steps;
                        r.states.extend(states);
                        r.over += o.over as u64;
                        r.leaked += o.leaked as u64;
                        r.max_choices = r.max_choices.max(o.log.len());
                        if let Some(d) = o.diverged {
                            r.diverged.push(d);
                        }
                        if sample {
                            r.samples.push(o.trace);
                        }
                        r.fails.extend(failed);
                        if r.fails.len() > 3 {
                            // enough for this scenario
                            counts[i].store(u64::MAX / 2, Ordering::Relaxed);
                        }
                    }
                    {
                        let mut q = sh.q.lock().unwrap();
                        q[i].extend(new);
                    }
                    sh.busy.fetch_sub(1, Ordering::SeqCst);
                }
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::SeqCst);
    });
    reports.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

pub static HUNG: Mutex<Option<(usize, Vec<u32>)>> = Mutex::new(None);
type HangFn = Box<dyn FnOnce(usize, Vec<u32>) + Send>;
pub static ON_HANG: Mutex<Option<HangFn>> = Mutex::new(None);
