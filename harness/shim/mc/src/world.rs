//! The environment of a simulated server: clients, secrets, handlers, and the monitor.
use crate::model::{self, MPacket};
use crate::util;
use async_trait::async_trait;
use mctokio::net::{net, UdpSocket};
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::future::poll_fn;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

/// Which clauses of the monitor the property at hand consists of.
pub static TAGS: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
pub fn report(tag: &str, msg: impl FnOnce() -> String) {
    if TAGS.lock().unwrap().iter().any(|t| *t == tag) {
        let m = msg();
        mcrt::trace(|| format!("!! [{tag}] {m}"));
        mcrt::fail(format!("[{tag}] {m}"));
    }
}

#[derive(Default)]
pub struct Flag(Mutex<(bool, Vec<Waker>)>);
impl Flag {
    pub fn set(&self) {
        let ws = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            std::mem::take(&mut g.1)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn is_set(&self) -> bool {
        self.0.lock().unwrap().0
    }
    pub async fn wait(&self) {
        poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Ok,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug)]
pub struct Beh {
    pub yields: u8,
    pub hold: bool,
    pub end: End,
    pub reply: bool,
}
pub const NOW: Beh = Beh { yields: 0, hold: false, end: End::Ok, reply: false };
pub const HELD: Beh = Beh { yields: 0, hold: true, end: End::Ok, reply: false };

#[derive(Clone, Debug, PartialEq)]
pub enum Sec {
    Is(Vec<u8>),
    Fetch,
    Generic,
    Panic,
}

pub struct Dg {
    pub from: SocketAddr,
    pub data: Vec<u8>,
    pub beh: Mutex<Beh>,
    pub gate: Flag,
    /// epoch (number of quiescent points so far) of the arrival, or of the run that has to handle it
    pub epoch: std::sync::atomic::AtomicU64,
    /// it was to be handled by the settings at its arrival
    pub admissible: bool,
    /// arrived while the server was running, and nothing is about to stop it
    pub running: std::sync::atomic::AtomicBool,
    pub entered: Mutex<Vec<u64>>,
    pub note: String,
}
impl Dg {
    pub fn id(&self) -> Option<u8> {
        self.data.get(1).copied()
    }
    pub fn at(&self) -> u64 {
        self.epoch.load(std::sync::atomic::Ordering::SeqCst)
    }
}

/// one handler invocation
pub struct Inv {
    pub dg: usize,
    pub key: (SocketAddr, u8),
    pub enter_epoch: u64,
    pub exit_epoch: Option<u64>,
}

#[derive(Default)]
pub struct St {
    pub dgs: Vec<Arc<Dg>>,
    pub invs: Vec<Inv>,
    pub epoch: u64,
    pub secrets: Vec<(SocketAddr, Sec)>,
    pub default_secret: Option<Sec>,
    pub buf: usize,
    pub skip: bool,
    pub local: Option<SocketAddr>,
    pub running: bool,
    pub stopping: bool,
    pub run_results: Vec<Result<(), String>>,
    pub ended: u64,
    pub logs: Vec<String>,
}
impl St {
    /// the secret for an address, empty if there is none
    pub fn secret_of(&self, a: &SocketAddr) -> Vec<u8> {
        match self.secrets.iter().find(|x| x.0 == *a).map(|x| &x.1).or(self.default_secret.as_ref()) {
            Some(Sec::Is(v)) => v.clone(),
            _ => vec![],
        }
    }
    /// a duplicate of a request in progress at some time of its epoch?
    pub fn duplicate(&self, d: &Dg) -> bool {
        let (e, id) = (d.at(), d.id());
        self.invs.iter().any(|v| v.key.0 == d.from && Some(v.key.1) == id && v.enter_epoch <= e && v.exit_epoch.is_none_or(|x| x >= e))
    }
}
#[derive(Default)]
pub struct World {
    pub s: Mutex<St>,
}
pub fn world() -> Arc<World> {
    mcrt::ext::<World>().expect("outside an execution")
}

pub struct Provider(pub Arc<World>);
impl SecretProvider for Provider {
    fn fetch_secret(&self, remote_addr: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        mcrt::point();
        let w = &self.0;
        let s = {
            let s = w.s.lock().unwrap();
            s.secrets.iter().find(|x| x.0 == remote_addr).map(|x| x.1.clone()).or(s.default_secret.clone())
        };
        mcrt::trace(|| format!("fetches the secret for {remote_addr}: {s:?}"));
        match s {
            Some(Sec::Is(v)) => Ok(v),
            Some(Sec::Fetch) => Err(SecretProviderError::FailedFetchingError("no route to the vault".into())),
            Some(Sec::Generic) => Err(SecretProviderError::GenericError("odd".into())),
            Some(Sec::Panic) => panic!("the secret provider panics"),
            None => Err(SecretProviderError::FailedFetchingError("unknown client".into())),
        }
    }
}

/// is the packet exactly the model's?
pub fn same(p: &Packet, m: &MPacket, secret: &[u8]) -> bool {
    p.get_code() == util::code(m.code)
        && p.get_identifier() == m.id
        && p.get_authenticator()[..] == m.auth[..]
        && p.get_secret()[..] == *secret
        && util::by_type(p) == util::model_by_type(&m.attrs)
        && (!model::SENDABLE.contains(&m.code) || p.encode().ok() == model::encode(m, secret))
}

struct Running {
    w: Arc<World>,
    inv: usize,
    over: bool,
}
impl Running {
    fn end(&mut self, how: &str) {
        self.over = true;
        let mut s = self.w.s.lock().unwrap();
        let e = s.epoch;
        s.invs[self.inv].exit_epoch = Some(e);
        let dg = s.invs[self.inv].dg;
        drop(s);
        mcrt::digest(1000 + self.inv as u64);
        mcrt::trace(|| format!("handler of datagram {dg} ends: {how}"));
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        if !self.over && mcrt::active() && !mcrt::draining() {
            self.end("cancelled");
            report("cancelled", || format!("the handler invocation {} was cancelled while it was running", self.inv));
        }
    }
}

pub struct Handler(pub Arc<World>);
#[async_trait]
impl RequestHandler<(), String> for Handler {
    async fn handle_radius_request(&self, conn: &UdpSocket, r: &Request) -> Result<(), String> {
        mcrt::point();
        let w = &self.0;
        let p = r.get_packet();
        let key = (r.get_remote_addr(), p.get_identifier());
        let (inv, dg) = {
            let mut s = w.s.lock().unwrap();
            let epoch = s.epoch;
            // the datagram this invocation is for
            let secret = |s: &St, a: SocketAddr| match s.secrets.iter().find(|x| x.0 == a).map(|x| x.1.clone()).or(s.default_secret.clone()) {
                Some(Sec::Is(v)) => v,
                _ => vec![],
            };
            let cands: Vec<usize> = (0..s.dgs.len())
                .filter(|i| {
                    let d = &s.dgs[*i];
                    d.from == key.0 && d.data.get(1) == Some(&key.1) && model::parse(&d.data).is_some_and(|m| same(p, &m, &secret(&s, d.from)))
                })
                .collect();
            let fresh = cands.iter().rev().find(|i| s.dgs[**i].entered.lock().unwrap().is_empty()).copied();
            let k = match fresh {
                Some(k) => k,
                None if cands.is_empty() => {
                    let d = format!("{p:?} from {} matches no datagram", key.0);
                    drop(s);
                    report("content", || format!("the handler got {d}"));
                    return Ok(());
                }
                None => {
                    drop(s);
                    report("twice", || format!("datagram {} was handed over more than once", cands[0]));
                    return Ok(());
                }
            };
            let d = s.dgs[k].clone();
            let n = s.invs.len();
            d.entered.lock().unwrap().push(n as u64);
            let overlap: Vec<usize> = s.invs.iter().filter(|v| v.key == key && v.exit_epoch.is_none()).map(|v| v.dg).collect();
            s.invs.push(Inv { dg: k, key, enter_epoch: epoch, exit_epoch: None });
            let local = s.local;
            let (skip, buf) = (s.skip, s.buf);
            let sec = secret(&s, d.from);
            drop(s);
            mcrt::trace(|| format!("handler of datagram {k} starts ({} id {})", key.0, key.1));
            mcrt::digest(n as u64 + 1);
            if let Some(o) = overlap.first() {
                report("overlap", || format!("a handler for datagram {k} started while the one for datagram {o} with the same address {} and identifier {} is running", key.0, key.1));
            }
            if admissible(&d.data, &sec, skip, buf) == Some(false) {
                report("inadmissible", || format!("datagram {k} ({}) must not be handed over: {}", d.note, util_hex(&d.data)));
            }
            if Some(r.get_local_addr()) != local {
                report("content", || format!("local address {} instead of {local:?}", r.get_local_addr()));
            }
            if conn.local_addr().ok() != local {
                report("content", || "the connection is not the listening one".into());
            }
            (n, d)
        };
        let mut run = Running { w: w.clone(), inv, over: false };
        let b = *dg.beh.lock().unwrap();
        for _ in 0..b.yields {
            mctokio::task::yield_now().await;
        }
        if b.hold {
            dg.gate.wait().await;
        }
        let b = *dg.beh.lock().unwrap();
        if b.reply {
            let res = p.make_response_packet(radius::core::code::Code::AccessAccept);
            if let Ok(bs) = res.encode() {
                let _ = conn.send_to(&bs, r.get_remote_addr()).await;
            }
        }
        mcrt::point();
        run.end(match b.end {
            End::Ok => "ok",
            End::Err => "error",
            End::Panic => "panic",
        });
        match b.end {
            End::Ok => Ok(()),
            End::Err => Err("the handler fails".into()),
            End::Panic => panic!("the handler panics"),
        }
    }
}

pub fn util_hex(b: &[u8]) -> String {
    crate::engine::hex(b)
}

/// Must the datagram be handed over? None: not specified.
pub fn admissible(data: &[u8], secret: &[u8], skip: bool, buf: usize) -> Option<bool> {
    if secret.is_empty() {
        return Some(false);
    }
    let seen = &data[..data.len().min(buf)];
    let Some(_) = model::parse(seen) else { return Some(false) };
    let ok = skip || model::authentic_request(seen, secret)?;
    if ok && data.len() > buf {
        return None;
    }
    Some(ok)
}

pub type Srv = Server<(), String, Handler, Provider>;

#[derive(Clone)]
pub struct Cfg {
    pub v6: bool,
    /// another server than the first: its port
    pub second: Option<u16>,
    pub buf: Option<usize>,
    pub skip: Option<bool>,
    pub default_secret: Sec,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { v6: false, second: None, buf: None, skip: None, default_secret: Sec::Is(SECRET.to_vec()) }
    }
}
pub const SECRET: &[u8] = b"s3cr3t-0f-Arkham";

/// A server under test and what controls it.
pub struct Sim {
    pub w: Arc<World>,
    pub addr: SocketAddr,
    ctl: Arc<Ctl>,
}
#[derive(Default)]
struct Ctl {
    go: Mutex<Vec<Arc<(Flag, Flag)>>>,
    next: tokio_next::Next,
    /// the server is to be dropped
    gone: std::sync::atomic::AtomicBool,
}
mod tokio_next {
    /// number of the run wanted next
    #[derive(Default)]
    pub struct Next(pub std::sync::Mutex<(usize, Vec<std::task::Waker>, Vec<Change>)>);
    pub type Change = (Option<usize>, Option<bool>);
}

impl Sim {
    pub fn start(cfg: Cfg) -> Sim {
        mcrt::freeze();
        let sim = Self::listen(cfg);
        sim.run();
        mcrt::quiesce();
        mcrt::thaw();
        sim.w.s.lock().unwrap().epoch += 1;
        sim
    }

    pub fn listen(cfg: Cfg) -> Sim {
        let host = if cfg.v6 { "[::1]" } else { "127.0.0.1" };
        let port = cfg.second.unwrap_or(1812);
        Self::listen_at(cfg, host, port).unwrap_or_else(|e| panic!("cannot listen: {e}"))
    }

    pub fn listen_at(cfg: Cfg, host: &str, port: u16) -> std::io::Result<Sim> {
        let w = if cfg.second.is_some() { Arc::default() } else { world() };
        {
            let mut s = w.s.lock().unwrap();
            s.default_secret = Some(cfg.default_secret.clone());
            s.buf = cfg.buf.unwrap_or(1500);
            s.skip = cfg.skip.unwrap_or(false);
        }
        let srv = match mcrt::drive(Srv::listen(host, port, Handler(w.clone()), Provider(w.clone()))) {
            mcrt::Ended::Value(Ok(s)) => s,
            mcrt::Ended::Value(Err(e)) => return Err(e),
            _ => panic!("cannot listen"),
        };
        let mut srv = srv;
        if let Some(b) = cfg.buf {
            srv.set_buffer_size(b);
        }
        if let Some(b) = cfg.skip {
            srv.set_skip_authenticity_validation(b);
        }
        let addr = srv.get_listen_address().expect("listen address");
        w.s.lock().unwrap().local = Some(addr);
        let ctl = Arc::new(Ctl::default());
        let c2 = ctl.clone();
        let w2 = w.clone();
        mctokio::spawn(async move {
            let mut n = 0;
            loop {
                // wait for the order to run
                let changes = poll_fn(|cx| {
                    let mut g = c2.next.0.lock().unwrap();
                    if g.0 > n {
                        Poll::Ready(Some(std::mem::take(&mut g.2)))
                    } else if c2.gone.load(std::sync::atomic::Ordering::SeqCst) {
                        Poll::Ready(None)
                    } else {
                        g.1.push(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
                let Some(changes) = changes else {
                    mcrt::trace(|| "the server is dropped".into());
                    return;
                };
                for (b, k) in changes {
                    if let Some(b) = b {
                        srv.set_buffer_size(b);
                    }
                    if let Some(k) = k {
                        srv.set_skip_authenticity_validation(k);
                    }
                }
                let flag = c2.go.lock().unwrap()[n].clone();
                n += 1;
                mcrt::trace(|| "the server runs".into());
                struct Note(Arc<World>, bool);
                impl Drop for Note {
                    fn drop(&mut self) {
                        if !self.1 && mcrt::active() && !mcrt::draining() {
                            let mut s = self.0.s.lock().unwrap();
                            s.run_results.push(Err("panic".into()));
                            s.ended += 1;
                            s.running = false;
                        }
                    }
                }
                let mut note = Note(w2.clone(), false);
                let r = srv.run(flag.1.wait()).await;
                note.1 = true;
                mcrt::trace(|| format!("the server ends with {r:?}"));
                if crate::shows(&format!("{r:?}"), SECRET) {
                    report("secret", || format!("the result of run() shows the secret: {r:?}"));
                }
                let mut s = w2.s.lock().unwrap();
                s.run_results.push(r.map_err(|e| e.to_string()));
                s.ended += 1;
                s.running = false;
                s.stopping = false;
                drop(s);
                // nothing may be handled from here on: a point for others
                mcrt::point();
            }
        });
        Ok(Sim { w, addr, ctl })
    }

    pub fn run(&self) {
        self.run_with(None, None)
    }
    /// run (again), after changing the settings
    pub fn run_with(&self, buf: Option<usize>, skip: Option<bool>) {
        {
            let mut s = self.w.s.lock().unwrap();
            if let Some(b) = buf {
                s.buf = b;
            }
            if let Some(k) = skip {
                s.skip = k;
            }
            s.running = true;
            s.stopping = false;
            // this run has to handle what still waits in the socket
            for d in &s.dgs {
                if d.admissible && d.entered.lock().unwrap().is_empty() && !d.running.load(std::sync::atomic::Ordering::SeqCst) && !s.duplicate(d) {
                    d.epoch.store(s.epoch, std::sync::atomic::Ordering::SeqCst);
                    d.running.store(true, std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
        self.ctl.go.lock().unwrap().push(Arc::default());
        let ws = {
            let mut g = self.ctl.next.0.lock().unwrap();
            g.0 += 1;
            g.2.push((buf, skip));
            std::mem::take(&mut g.1)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn shutdown(&self) {
        mcrt::point();
        mcrt::trace(|| "shutdown".into());
        self.stopping();
        let f = self.ctl.go.lock().unwrap().last().unwrap().clone();
        f.1.set();
    }

    /// the program gives up the server, which is not running
    pub fn give_up(&self) {
        self.ctl.gone.store(true, std::sync::atomic::Ordering::SeqCst);
        let ws = std::mem::take(&mut self.ctl.next.0.lock().unwrap().1);
        for w in ws {
            w.wake()
        }
    }

    /// the run is about to end: what arrives now, or has just arrived, may be left unread
    pub fn stopping(&self) {
        let mut s = self.w.s.lock().unwrap();
        s.stopping = true;
        for d in s.dgs.iter().filter(|d| d.at() == s.epoch) {
            d.running.store(false, std::sync::atomic::Ordering::SeqCst);
        }
    }

    /// a datagram arrives
    pub fn send(&self, from: SocketAddr, data: &[u8], beh: Beh, note: &str) -> usize {
        let k = {
            let mut s = self.w.s.lock().unwrap();
            let secret = s.secret_of(&from);
            let d = Dg {
                from,
                data: data.to_vec(),
                beh: Mutex::new(beh),
                gate: Flag::default(),
                epoch: s.epoch.into(),
                admissible: admissible(data, &secret, s.skip, s.buf) == Some(true),
                running: (s.running && !s.stopping).into(),
                entered: Mutex::new(vec![]),
                note: note.to_string(),
            };
            s.dgs.push(Arc::new(d));
            s.dgs.len() - 1
        };
        mcrt::trace(|| format!("datagram {k} from {from} ({note}): {}", util_hex(&data[..data.len().min(60)])));
        net().deliver(from, self.addr, data);
        mcrt::point();
        k
    }
    /// quiet, of several servers
    pub fn all_quiet(sims: &[Sim]) {
        mcrt::quiesce();
        mcrt::trace(|| "quiet".into());
        for s in sims {
            s.check_lost();
            s.w.s.lock().unwrap().epoch += 1;
        }
    }
    pub fn quiet(&self) {
        mcrt::quiesce();
        mcrt::trace(|| "quiet".into());
        self.check_lost();
        self.w.s.lock().unwrap().epoch += 1;
    }
    pub fn open(&self, k: usize, end: End) {
        let d = self.w.s.lock().unwrap().dgs[k].clone();
        d.beh.lock().unwrap().end = end;
        d.gate.set();
    }
    /// datagrams whose handler is running
    pub fn in_progress(&self) -> Vec<usize> {
        self.w.s.lock().unwrap().invs.iter().filter(|v| v.exit_epoch.is_none()).map(|v| v.dg).collect()
    }
    /// forget what has been sent and handled; nothing may be in progress
    pub fn forget(&self) {
        let mut s = self.w.s.lock().unwrap();
        assert!(s.invs.iter().all(|v| v.exit_epoch.is_some()));
        s.dgs.clear();
        s.invs.clear();
    }
    pub fn ended(&self) -> u64 {
        self.w.s.lock().unwrap().ended
    }
    pub fn last_result(&self) -> Option<Result<(), String>> {
        self.w.s.lock().unwrap().run_results.last().cloned()
    }

    /// Everything of this epoch that must have been handed over was.
    fn check_lost(&self) {
        if mcrt::sync_blocked() > 0 {
            report("deadlock", || "a task is blocked for good in a synchronous operation".into());
        }
        let s = self.w.s.lock().unwrap();
        let mut lost = vec![];
        for (k, d) in s.dgs.iter().enumerate() {
            if !d.entered.lock().unwrap().is_empty() || !d.running.load(std::sync::atomic::Ordering::SeqCst) || d.at() != s.epoch {
                continue;
            }
            if admissible(&d.data, &s.secret_of(&d.from), s.skip, s.buf) != Some(true) {
                continue;
            }
            if !s.duplicate(d) {
                lost.push((k, d.note.clone(), d.from, d.id().unwrap()));
            }
        }
        drop(s);
        for (k, note, from, id) in lost {
            report("lost", || format!("datagram {k} ({note}) from {from} with identifier {id} was not handed over"));
        }
    }
    /// the server must still be running
    pub fn check_running(&self) {
        let s = self.w.s.lock().unwrap();
        if !s.running && !s.stopping {
            let r = s.run_results.last().cloned();
            drop(s);
            report("run-early", || format!("run() ended with {r:?} although no shutdown was triggered"));
        }
    }
}

/// a genuine request
pub fn request(code: u8, id: u8, secret: &[u8], nonce: u8) -> Vec<u8> {
    let m = MPacket { code, id, auth: util::auth16(nonce as u64 + 1), attrs: vec![(1, vec![b'#', nonce]), (6, vec![0, 0, 0, nonce])] };
    model::encode(&m, secret).unwrap()
}
