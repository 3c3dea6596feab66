//! Exhaustive enumeration engine: every property is decided on named finite
//! spaces; every index of every space is executed on the library.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

#[derive(Default)]
pub struct IdHasher(u64);
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type IdSet = HashSet<u64, std::hash::BuildHasherDefault<IdHasher>>;

/// 64-bit hash used for canonical model states (not for verdicts).
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> Self {
        H(0xcbf29ce484222325)
    }
    pub fn u(mut self, v: u64) -> Self {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
        self
    }
    pub fn b(mut self, bs: &[u8]) -> Self {
        self = self.u(bs.len() as u64 + 1);
        for c in bs.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self = self.u(u64::from_le_bytes(w));
        }
        self
    }
}

pub struct Fail {
    pub space: String,
    pub index: u64,
    pub detail: String,
}

pub struct Local {
    pub ops: u64,
    states: Vec<u64>,
    pub out: Option<u64>,
    pub want_detail: bool,
    fail: Option<String>,
    pub note: String,
}
impl Local {
    /// count one operation of the library checked against the model
    #[inline]
    pub fn op(&mut self) {
        self.ops += 1
    }
    /// record a canonical model state
    #[inline]
    pub fn state(&mut self, h: H) {
        self.states.push(h.0)
    }
    pub fn fail(&mut self, s: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(s.into())
        }
    }
    pub fn check(&mut self, ok: bool, s: impl FnOnce() -> String) {
        if !ok && self.fail.is_none() {
            self.fail = Some(s())
        }
    }
    /// result of the case for the back-end comparison
    pub fn result(&mut self, h: H) {
        self.out = Some(h.0)
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            def(i)
        }
    }));
}

pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

struct Slot {
    idx: AtomicU64,
    since: AtomicU64,
}

pub struct Ctx {
    pub thorough: bool,
    pub transcript: bool,
    pub only: Option<(String, u64)>,
    pub fails: Mutex<Vec<Fail>>,
    pub spaces: Mutex<Vec<(String, u64, String)>>,
    pub cases: AtomicU64,
    pub ops: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub outs: Mutex<Vec<(String, Vec<u64>)>>,
    states: Vec<Mutex<IdSet>>,
    pub state_overflow: AtomicU64,
    slots: Vec<Slot>,
    cur_space: Mutex<String>,
    t0: Instant,
    stop: AtomicBool,
    pub logged_cases: AtomicU64,
}

/// switches the reception of log records on or off, if part of the cases is to run with it
pub static SET_LOGGING: Mutex<Option<fn(bool)>> = Mutex::new(None);

const STATE_CAP: usize = 500_000; // per shard

impl Ctx {
    pub fn new(thorough: bool, transcript: bool, only: Option<(String, u64)>) -> Self {
        Ctx {
            thorough,
            transcript,
            only,
            fails: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            cases: AtomicU64::new(0),
            ops: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            outs: Mutex::new(vec![]),
            states: (0..64).map(|_| Mutex::new(IdSet::default())).collect(),
            state_overflow: AtomicU64::new(0),
            slots: (0..WORKERS)
                .map(|_| Slot {
                    idx: AtomicU64::new(u64::MAX),
                    since: AtomicU64::new(0),
                })
                .collect(),
            cur_space: Mutex::new(String::new()),
            t0: Instant::now(),
            stop: AtomicBool::new(false),
            logged_cases: AtomicU64::new(0),
        }
    }

    pub fn distinct_states(&self) -> u64 {
        self.states
            .iter()
            .map(|m| m.lock().unwrap().len() as u64)
            .sum::<u64>()
    }

    pub fn pick(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    fn absorb(&self, v: &mut Vec<u64>) {
        if v.is_empty() {
            return;
        }
        v.sort_unstable_by_key(|x| x >> 58);
        let mut i = 0;
        while i < v.len() {
            let shard = (v[i] >> 58) as usize;
            let mut m = self.states[shard].lock().unwrap();
            while i < v.len() && (v[i] >> 58) as usize == shard {
                if m.len() < STATE_CAP {
                    m.insert(v[i]);
                } else {
                    self.state_overflow.fetch_add(1, Ordering::Relaxed);
                }
                i += 1;
            }
        }
        v.clear();
    }

    /// Execute `f(i)` for every i in 0..n.
    pub fn space<F>(&self, name: &str, what: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) + Sync,
    {
        if let Some((s, i)) = &self.only {
            if s == name {
                if *i == u64::MAX {
                    return;
                }
                let mut l = self.local(true);
                self.run_one(*i, &mut l, name, &f);
                if let Some(set) = *SET_LOGGING.lock().unwrap() {
                    set(true);
                    self.run_one(*i, &mut l, name, &f);
                    set(false);
                }
                self.cases.fetch_add(1, Ordering::Relaxed);
                self.ops.fetch_add(l.ops, Ordering::Relaxed);
                if !l.note.is_empty() {
                    println!("case {name}[{i}]: {}", l.note);
                }
            }
            return;
        }
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        *self.cur_space.lock().unwrap() = name.to_string();
        let set_logging = SET_LOGGING.lock().unwrap().filter(|_| !self.transcript);
        self.sweep(name, n, 1, &f);
        if let (Some(set), false) = (set_logging, self.stop.load(Ordering::Relaxed)) {
            // what the library logs is not evaluated unless somebody listens: part of the space once more
            set(true);
            let before = (self.cases.load(Ordering::Relaxed), self.ops.load(Ordering::Relaxed));
            self.sweep(name, n, 11, &f);
            self.logged_cases.fetch_add(self.cases.load(Ordering::Relaxed) - before.0, Ordering::Relaxed);
            set(false);
        }
        self.spaces
            .lock()
            .unwrap()
            .push((name.to_string(), n, what.to_string()));
        // write two cases out
        if n > 0 {
            for i in [n / 2, n - 1] {
                let mut l = self.local(true);
                self.run_one(i, &mut l, name, &f);
                if !l.note.is_empty() {
                    let mut note = l.note.clone();
                    if note.len() > 220 {
                        let mut k = 220;
                        while !note.is_char_boundary(k) {
                            k -= 1
                        }
                        note.truncate(k);
                        note.push_str("...");
                    }
                    self.samples
                        .lock()
                        .unwrap()
                        .push(format!("{name}[{i}]: {note}"));
                }
            }
        }
    }
    /// every `stride`-th case of the space
    fn sweep<F>(&self, name: &str, n: u64, stride: u64, f: &F)
    where
        F: Fn(u64, &mut Local) + Sync,
    {
        let n = n.div_ceil(stride);
        let next = AtomicU64::new(0);
        let chunk = (n / (WORKERS as u64 * 64)).clamp(1, 4096);
        let outs: Vec<Mutex<Vec<(u64, Vec<u64>)>>> =
            (0..WORKERS).map(|_| Mutex::new(vec![])).collect();
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let next = &next;
                let outs = &outs;
                sc.spawn(move || {
                    let slot = &self.slots[w];
                    let mut l = self.local(false);
                    let mut done = 0;
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || self.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let b = (a + chunk).min(n);
                        let mut o = vec![];
                        for i in (a..b).map(|i| i * stride) {
                            slot.idx.store(i, Ordering::Relaxed);
                            slot.since
                                .store(self.t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            self.run_one(i, &mut l, name, f);
                            if self.transcript {
                                o.push(l.out.take().unwrap_or(0));
                            }
                            done += 1;
                        }
                        if self.transcript {
                            outs[w].lock().unwrap().push((a, o));
                        }
                        if l.states.len() > 60_000 {
                            self.absorb(&mut l.states);
                        }
                    }
                    slot.idx.store(u64::MAX, Ordering::Relaxed);
                    self.absorb(&mut l.states);
                    self.cases.fetch_add(done, Ordering::Relaxed);
                    self.ops.fetch_add(l.ops, Ordering::Relaxed);
                });
            }
        });
        if self.transcript {
            let mut all: Vec<(u64, Vec<u64>)> = vec![];
            for o in outs {
                all.extend(o.into_inner().unwrap());
            }
            all.sort_by_key(|x| x.0);
            self.outs.lock().unwrap().push((
                name.to_string(),
                all.into_iter().flat_map(|x| x.1).collect(),
            ));
        }
    }

    fn local(&self, detail: bool) -> Local {
        Local {
            ops: 0,
            states: vec![],
            out: None,
            want_detail: detail,
            fail: None,
            note: String::new(),
        }
    }

    fn run_one<F: Fn(u64, &mut Local)>(&self, i: u64, l: &mut Local, name: &str, f: &F) {
        if let Err(p) = no_panic(|| f(i, l)) {
            l.fail(format!("panic: {p}"));
        }
        if let Some(d) = l.fail.take() {
            let mut fs = self.fails.lock().unwrap();
            if fs.len() < 50 {
                fs.push(Fail {
                    space: name.to_string(),
                    index: i,
                    detail: d,
                });
            }
            if fs.len() >= 20 && !self.transcript {
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }

    /// A case that neither returns nor panics is a violation as well.
    pub fn watchdog(&'static self, on_hang: impl Fn(Fail) + Send + 'static) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = self.t0.elapsed().as_millis() as u64;
            let rss = rss_mb();
            let mut worst: Option<(u64, u64)> = None;
            for s in &self.slots {
                let i = s.idx.load(Ordering::Relaxed);
                let since = s.since.load(Ordering::Relaxed);
                if i != u64::MAX && s.idx.load(Ordering::Relaxed) == i && now > since {
                    let d = now - since;
                    if worst.map_or(true, |w| d > w.1) {
                        worst = Some((i, d));
                    }
                }
            }
            if let Some((i, d)) = worst {
                if d > 40_000 || (rss > 12_000 && d > 500) {
                    on_hang(Fail {
                        space: self.cur_space.lock().unwrap().clone(),
                        index: i,
                        detail: format!("does not terminate (running for {d} ms, {rss} MB)"),
                    });
                }
            }
        });
    }
}

pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
        / 1_000_000
}

pub fn hex(bs: &[u8]) -> String {
    let mut s = String::with_capacity(bs.len() * 2);
    for b in bs.iter().take(600) {
        s.push_str(&format!("{b:02x}"));
    }
    if bs.len() > 600 {
        s.push_str(&format!("...({} octets)", bs.len()));
    }
    s
}

/// Mixed-radix decoding of a case index.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len() as u64) as usize]
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn dump(path: &str, prop: &str, backend: &str, ctx: &Ctx, extra: Option<Fail>, secs: f64) {
    let mut s = String::from("{");
    s.push_str(&format!("\"property\":{},\"backend\":{},\"seconds\":{secs:.3},", js(prop), js(backend)));
    s.push_str(&format!("\"cases\":{},\"ops\":{},\"states\":{},\"state_overflow\":{},", ctx.cases.load(Ordering::Relaxed), ctx.ops.load(Ordering::Relaxed), ctx.distinct_states(), ctx.state_overflow.load(Ordering::Relaxed)));
    s.push_str(&format!("\"cases_with_log_records_received\":{},", ctx.logged_cases.load(Ordering::Relaxed)));
    s.push_str("\"spaces\":[");
    s.push_str(&ctx.spaces.lock().unwrap().iter().map(|(n, c, w)| format!("{{\"name\":{},\"cases\":{c},\"what\":{}}}", js(n), js(w))).collect::<Vec<_>>().join(","));
    s.push_str("],\"samples\":[");
    s.push_str(&ctx.samples.lock().unwrap().iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"fails\":[");
    let fs = ctx.fails.lock().unwrap();
    let mut all: Vec<&Fail> = fs.iter().chain(extra.iter()).collect();
    all.sort_by_key(|f| f.index);
    s.push_str(&all.iter().map(|f| format!("{{\"space\":{},\"index\":{},\"detail\":{}}}", js(&f.space), f.index, js(&f.detail))).collect::<Vec<_>>().join(","));
    s.push_str("]}");
    std::fs::write(path, s).expect("write the result file");
}

