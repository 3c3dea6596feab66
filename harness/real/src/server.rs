use crate::engine::*;
use async_trait::async_trait;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
use tokio::sync::{mpsc, oneshot, Notify};

pub const PATIENCE: Duration = Duration::from_secs(10);

#[derive(Clone, PartialEq, Debug)]
pub struct Start {
    pub from: SocketAddr,
    pub local: SocketAddr,
    pub code: u8,
    pub id: u8,
    pub auth: Vec<u8>,
    pub secret: Vec<u8>,
    pub attrs: Vec<Vec<u8>>,
}

enum How {
    Fine,
    Error,
    Panic,
}

#[derive(Default)]
struct State {
    barrier: Option<SocketAddr>,
    barriers: Vec<u8>,
    starts: Vec<Start>,
    finish: Vec<Option<oneshot::Sender<How>>>,
    ended: Vec<bool>,
    // senders the provider treats specially: no secret, empty secret, panic
    special: Vec<(SocketAddr, u8)>,
    // handlers answer before they wait
    reply: bool,
}

#[derive(Clone, Default)]
pub struct World {
    st: Arc<Mutex<State>>,
    changed: Arc<Notify>,
}

struct Ended(World, usize);
impl Drop for Ended {
    fn drop(&mut self) {
        let mut s = self.0.st.lock().unwrap();
        if s.finish[self.1].is_some() {
            // dropped before anybody let it finish: cancelled
            s.ended[self.1] = true;
        }
    }
}

pub struct Handler(World);
#[async_trait]
impl RequestHandler<(), String> for Handler {
    async fn handle_radius_request(&self, conn: &UdpSocket, r: &Request) -> Result<(), String> {
        let (rx, n) = {
            let mut s = self.0.st.lock().unwrap();
            let p = r.get_packet();
            if Some(r.get_remote_addr()) == s.barrier {
                s.barriers.push(p.get_identifier());
                drop(s);
                self.0.changed.notify_one();
                return Ok(());
            }
            let (tx, rx) = oneshot::channel();
            s.starts.push(Start {
                from: r.get_remote_addr(),
                local: r.get_local_addr(),
                code: p.get_code() as u8,
                id: p.get_identifier(),
                auth: p.get_authenticator().clone(),
                secret: p.get_secret().clone(),
                attrs: p.lookup_all(18).iter().map(|a| a.encode_bytes()).collect(),
            });
            s.finish.push(Some(tx));
            s.ended.push(false);
            (rx, s.starts.len() - 1)
        };
        let _ended = Ended(self.0.clone(), n);
        if self.0.st.lock().unwrap().reply {
            let mut p = r.get_packet().make_response_packet(Code::AccessAccept);
            p.add(AVP::from_bytes(18, r.get_local_addr().to_string().as_bytes()));
            let _ = conn.send_to(&p.encode().expect("harness: encode"), r.get_remote_addr()).await;
        }
        self.0.changed.notify_one();
        let how = rx.await;
        match how {
            Ok(How::Fine) => Ok(()),
            Ok(How::Error) => Err("the handler failed".into()),
            Ok(How::Panic) => panic!("the handler panicked"),
            Err(_) => Ok(()),
        }
    }
}

pub struct Provider(World);
impl SecretProvider for Provider {
    fn fetch_secret(&self, a: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let k = self.0.st.lock().unwrap().special.iter().find(|x| x.0 == a).map(|x| x.1);
        match k {
            None => Ok(secret(a)),
            Some(0) => Err(SecretProviderError::GenericError("unknown client".into())),
            Some(1) => Ok(vec![]),
            _ => panic!("the provider panicked"),
        }
    }
}
pub fn secret(a: SocketAddr) -> Vec<u8> {
    format!("secret of {}", a.port()).into_bytes()
}

impl World {
    async fn until(&self, f: impl Fn(&State) -> bool) -> bool {
        let t = Instant::now();
        loop {
            if f(&self.st.lock().unwrap()) {
                return true;
            }
            if t.elapsed() > PATIENCE {
                return false;
            }
            let _ = tokio::time::timeout(Duration::from_millis(50), self.changed.notified()).await;
        }
    }
}

struct Running {
    w: World,
    to: SocketAddr,
    bound: SocketAddr,
    stop: mpsc::UnboundedSender<()>,
    go: mpsc::UnboundedSender<()>,
    results: mpsc::UnboundedReceiver<Result<(), String>>,
    barrier: UdpSocket,
    sent: u8,
}

async fn start(buf: Option<usize>, skip: bool) -> Result<Running, String> {
    start_at("127.0.0.1", 0, buf, skip).await.map_err(|e| e.to_string())
}
async fn start_at(host: &str, port: u16, buf: Option<usize>, skip: bool) -> std::io::Result<Running> {
    let w = World::default();
    let barrier = UdpSocket::bind(if host.starts_with('[') { "[::1]:0" } else { "127.0.0.1:0" }).await.expect("harness: socket");
    w.st.lock().unwrap().barrier = Some(barrier.local_addr().unwrap());
    let mut s = Server::listen(host, port, Handler(w.clone()), Provider(w.clone())).await?;
    if let Some(n) = buf {
        s.set_buffer_size(n);
    }
    if skip {
        s.set_skip_authenticity_validation(true);
    }
    let bound = s.get_listen_address()?;
    let mut to = bound;
    match to.ip() {
        IpAddr::V4(a) if a.is_unspecified() => to.set_ip(Ipv4Addr::LOCALHOST.into()),
        IpAddr::V6(a) if a.is_unspecified() => to.set_ip(Ipv6Addr::LOCALHOST.into()),
        _ => {}
    }
    let (stop, mut stopped) = mpsc::unbounded_channel();
    let (go, mut going) = mpsc::unbounded_channel();
    let (report, results) = mpsc::unbounded_channel();
    tokio::spawn(async move {
        while going.recv().await.is_some() {
            let r = s.run(stopped.recv()).await;
            let _ = report.send(r.map_err(|e| e.to_string()));
        }
    });
    go.send(()).unwrap();
    Ok(Running { w, to, bound, stop, go, results, barrier, sent: 0 })
}

impl Running {
    /// everything sent so far has been received and its task has run up to its first suspension
    async fn settle(&mut self) -> bool {
        let a = self.barrier.local_addr().unwrap();
        for _ in 0..3 {
            let p = Packet::new_with_identifier(Code::AccessRequest, &secret(a), self.sent);
            self.sent = self.sent.wrapping_add(1);
            let n = self.w.st.lock().unwrap().barriers.len();
            if self.barrier.send_to(&p.encode().unwrap(), self.to).await.is_err() || !self.w.until(|s| s.barriers.len() > n).await {
                return false;
            }
        }
        true
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// client, identifier, kind of datagram
    Send(usize, u8, u8),
    Finish(u8),
    Stop,
    Go,
}
const OPS: [Op; 12] = [
    Op::Send(0, 1, 0),
    Op::Send(1, 1, 0),
    Op::Send(0, 2, 4), // an accounting request
    Op::Send(0, 3, 1), // not authentic
    Op::Send(0, 1, 2), // malformed
    Op::Send(2, 1, 0), // no secret
    Op::Send(4, 1, 0), // the provider panics
    Op::Finish(0),
    Op::Finish(1),
    Op::Finish(2),
    Op::Stop,
    Op::Go,
];

fn datagram(from: SocketAddr, id: u8, kind: u8, n: u64) -> Vec<u8> {
    let code = if kind == 4 { Code::AccountingRequest } else { Code::AccessRequest };
    let sec = secret(from);
    let mut p = Packet::new_with_identifier(code, &sec, id);
    p.add(AVP::from_bytes(18, format!("number {n}").as_bytes()));
    match kind {
        1 => {
            let mut q = Packet::new_with_identifier(Code::AccountingRequest, b"another secret", id);
            q.add(AVP::from_bytes(18, b"forged"));
            q.encode().unwrap()
        }
        2 => {
            let mut b = p.encode().unwrap();
            b.extend([18, 1]);
            let l = b.len() as u16;
            b[2..4].copy_from_slice(&l.to_be_bytes());
            b
        }
        _ => p.encode().unwrap(),
    }
}

struct V<'a> {
    prop: &'a str,
    out: Option<String>,
}
impl V<'_> {
    fn fail(&mut self, props: &[&str], s: String) {
        if props.contains(&self.prop) && self.out.is_none() {
            self.out = Some(s)
        }
    }
}

async fn history(ops: &[Op], prop: &str) -> Option<String> {
    let mut v = V { prop, out: None };
    let mut r = match start(None, false).await {
        Ok(r) => r,
        Err(e) => return Some(format!("listening failed: {e}")),
    };
    let mut cl = vec![];
    for _ in 0..5 {
        match UdpSocket::bind("127.0.0.1:0").await {
            Ok(c) => cl.push(c),
            Err(e) => panic!("harness: no socket: {e}"),
        }
    }
    let adr: Vec<SocketAddr> = cl.iter().map(|c| c.local_addr().unwrap()).collect();
    r.w.st.lock().unwrap().special = vec![(adr[2], 0), (adr[3], 1), (adr[4], 2)];
    // the model
    let mut up = true;
    let mut queue: Vec<(usize, u8, u8, Vec<u8>)> = vec![];
    let mut running: Vec<(usize, (usize, u8))> = vec![];
    // requests handed over so far
    let mut want = 0;
    let mut done = ops.to_vec();
    // afterwards: running, everything finished, and every client is served once more
    done.push(Op::Go);
    done.extend([Op::Finish(0); 4]);
    done.extend([Op::Send(0, 1, 0), Op::Send(1, 1, 0), Op::Send(0, 2, 4)]);
    for (n, op) in done.into_iter().enumerate() {
        let ctx = format!("{:?} at step {n} of {ops:?}", op);
        match op {
            Op::Send(c, id, kind) => {
                let d = datagram(adr[c], id, kind, n as u64);
                cl[c].send_to(&d, r.to).await.expect("harness: send");
                queue.push((c, id, kind, d));
            }
            Op::Finish(how) => {
                if running.is_empty() {
                    continue;
                }
                let (k, _) = running.remove(0);
                let tx = r.w.st.lock().unwrap().finish[k].take();
                let h = match how {
                    0 => How::Fine,
                    1 => How::Error,
                    _ => How::Panic,
                };
                if tx.expect("harness").send(h).is_err() {
                    v.fail(&["C23"], format!("{ctx}: the handler of request {k} was cancelled"));
                    return v.out;
                }
                if !up {
                    // let it finish before anything else happens
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
            Op::Stop => {
                if !up {
                    continue;
                }
                up = false;
                r.stop.send(()).unwrap();
                match tokio::time::timeout(PATIENCE, r.results.recv()).await {
                    Ok(Some(Ok(()))) => {}
                    x => {
                        v.fail(&["C23"], format!("{ctx}: run() gave {x:?}"));
                        return v.out;
                    }
                }
            }
            Op::Go => {
                if up {
                    continue;
                }
                up = true;
                r.go.send(()).unwrap();
            }
        }
        let fits = |st: &Start, a: SocketAddr, d: &[u8]| {
            st.from == a && st.local == r.to && st.code == d[0] && st.id == d[1] && st.auth == d[4..20] && st.secret == secret(a) && st.attrs == [d[22..].to_vec()]
        };
        if up {
            // requests of one key that waited together: any one of them is handled, in any order
            let m0 = want;
            let mut new: Vec<((usize, u8), Vec<Vec<u8>>, bool)> = vec![];
            for (c, id, kind, d) in queue.drain(..) {
                let key = (c, id);
                if c < 2 && (kind == 0 || kind == 4) && !running.iter().any(|x| x.1 == key) {
                    match new.iter_mut().find(|x| x.0 == key) {
                        Some(x) => x.1.push(d),
                        None => new.push((key, vec![d], false)),
                    }
                }
            }
            want += new.len();
            // what has to be handed over is
            if !r.w.until(|s| s.starts.len() >= want).await {
                v.fail(&["C20", "C22", "C23"], format!("{ctx}: {} requests handed over instead of {want}", r.w.st.lock().unwrap().starts.len()));
                return v.out;
            }
            let s = r.w.st.lock().unwrap();
            for (k, st) in s.starts.iter().enumerate().take(want).skip(m0) {
                match new.iter_mut().find(|x| !x.2 && x.1.iter().any(|d| fits(st, adr[x.0 .0], d))) {
                    Some(x) => {
                        x.2 = true;
                        running.push((k, x.0));
                    }
                    None => {
                        v.fail(if running.iter().any(|x| adr[x.1 .0] == st.from && x.1 .1 == st.id) { &["C21"] } else { &["C20"] }, format!("{ctx}: the handler got {st:?}, none of {new:?} of {adr:?}"));
                        return v.out;
                    }
                }
            }
            drop(s);
            if !r.settle().await {
                v.fail(&["C20", "C22", "C23"], format!("{ctx}: the server does not handle requests any more"));
                return v.out;
            }
        }
        let s = r.w.st.lock().unwrap();
        if let Some(st) = s.starts.get(want) {
            let (i, dup) = (st.id, running.iter().any(|x| adr[x.1 .0] == st.from && x.1 .1 == st.id));
            let props: &[&str] = if !up {
                &["C23"]
            } else if dup {
                &["C21"]
            } else {
                &["C20"]
            };
            v.fail(props, format!("{ctx}: the request of {} with identifier {i} was handed over", st.from));
        }
        if s.ended.iter().any(|x| *x) {
            v.fail(&["C23"], format!("{ctx}: a running handler was cancelled"));
        }
        drop(s);
        if let Ok(x) = r.results.try_recv() {
            v.fail(&["C22", "C23"], format!("{ctx}: run() ended with {x:?}"));
            return v.out;
        }
        if v.out.is_some() {
            return v.out;
        }
    }
    if prop == "C23" {
        // the program ends the run and drops the server; what is being handled goes on
        r.stop.send(()).unwrap();
        match tokio::time::timeout(PATIENCE, r.results.recv()).await {
            Ok(Some(Ok(()))) => {}
            x => {
                v.fail(&["C23"], format!("at the end of {ops:?}: run() gave {x:?}"));
                return v.out;
            }
        }
        drop(r.go);
        let _ = tokio::time::timeout(PATIENCE, r.results.recv()).await;
        for _ in 0..10 {
            tokio::task::yield_now().await;
        }
        for (k, _) in running {
            let tx = r.w.st.lock().unwrap().finish[k].take();
            if tx.expect("harness").send(How::Fine).is_err() {
                v.fail(&["C23"], format!("at the end of {ops:?}: the handler of request {k} was cancelled when the server was dropped"));
            }
        }
    }
    v.out
}

pub fn block<T>(multi: bool, f: impl std::future::Future<Output = T>) -> T {
    let rt = if multi { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build() } else { tokio::runtime::Builder::new_current_thread().enable_all().build() }.expect("harness: runtime");
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

pub fn histories(ctx: &Ctx, prop: &str) {
    let k = OPS.len() as u64;
    for n in 1..=ctx.pick(3, 5) as u32 {
        ctx.space(&format!("real-histories-{n}"), "every history of n operations (12 kinds: requests of two clients and two identifiers, forged, malformed, no secret, panicking provider, handler ends with success / error / panic, shutdown, restart) on the single-threaded runtime, then a clean-up", k.pow(n), |i, l| {
            let mut ix = Ix(i);
            let ops: Vec<Op> = (0..n).map(|_| *ix.of(&OPS)).collect();
            l.ops += n as u64;
            l.state(H::new().u(i).u(n as u64));
            if let Some(e) = block(false, history(&ops, prop)) {
                l.fail(e);
            }
            if l.want_detail {
                l.note = format!("{ops:?}");
            }
        });
    }
}

/// Everybody waits: no number of requests in progress keeps others out.
pub fn held(ctx: &Ctx, prop: &str) {
    const SOCKETS: usize = 258;
    ctx.space("real-held", "66048 requests (258 clients x 256 identifiers) in progress at the same time (fewer if that takes more than 30 s), duplicates of some, then all end and some keys come again", 1, |i, l| {
        l.ops += 66_048;
        l.state(H::new().u(i).u(67));
        let e = block(false, async move {
            let mut r = start(None, false).await.expect("harness: start");
            let mut cl = vec![];
            for _ in 0..SOCKETS {
                cl.push(UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket"));
            }
            let mut req: Vec<Packet> = cl.iter().map(|c| Packet::new_with_identifier(Code::AccessRequest, &secret(c.local_addr().unwrap()), 0)).collect();
            let t0 = Instant::now();
            let mut n = 0;
            for id in 0..=255u8 {
                for (k, c) in cl.iter().enumerate() {
                    req[k].set_identifier(id);
                    c.send_to(&req[k].encode().unwrap(), r.to).await.expect("harness: send");
                    n += 1;
                    if n % 32 == 0 && !r.w.until(|s| s.starts.len() >= n).await {
                        return Some((0, format!("with {} requests in progress, of {n} sent, no more are handed over", r.w.st.lock().unwrap().starts.len())));
                    }
                }
                if t0.elapsed() > Duration::from_secs(30) {
                    break;
                }
            }
            if !r.w.until(|s| s.starts.len() >= n).await || !r.settle().await {
                return Some((0, format!("{} of {n} requests were handed over", r.w.st.lock().unwrap().starts.len())));
            }
            // duplicates
            for (k, c) in cl.iter().enumerate() {
                req[k].set_identifier((k % (n / SOCKETS)) as u8);
                c.send_to(&req[k].encode().unwrap(), r.to).await.expect("harness: send");
                if k % 32 == 0 && !r.settle().await {
                    return Some((0, "the server does not handle requests any more".to_string()));
                }
            }
            if !r.settle().await {
                return Some((0, "the server does not handle requests any more".to_string()));
            }
            let dup = r.w.st.lock().unwrap().starts.len() - n;
            if dup > 0 {
                return Some((1, format!("{dup} duplicates of requests in progress were handed over ({n} in progress)")));
            }
            let all: Vec<_> = r.w.st.lock().unwrap().finish.iter_mut().map(|x| x.take()).collect();
            for (k, tx) in all.into_iter().enumerate() {
                let how = if k % 640 == 1 { How::Error } else { How::Fine };
                if tx.expect("harness").send(how).is_err() {
                    return Some((0, format!("the handler of request {k} was cancelled")));
                }
            }
            if !r.settle().await {
                return Some((0, "the server does not handle requests any more".to_string()));
            }
            for (k, c) in cl.iter().enumerate() {
                req[k].set_identifier((k % (n / SOCKETS)) as u8);
                c.send_to(&req[k].encode().unwrap(), r.to).await.expect("harness: send");
                if !r.w.until(|s| s.starts.len() > n + k).await {
                    return Some((0, format!("client {k} is not served again")));
                }
            }
            if let Ok(x) = r.results.try_recv() {
                return Some((0, format!("run() ended with {x:?}")));
            }
            None
        });
        if let Some((k, e)) = e {
            let props: &[&str] = if k == 0 { &["C22"] } else { &["C21"] };
            if props.contains(&prop) {
                l.fail(e);
            }
        }
    });
}

/// Counters, tables and channels must not run out.
pub fn long(ctx: &Ctx, prop: &str) {
    ctx.space("real-long", "66000 requests one after the other (cycling identifiers), their handlers ending in turn with success, error and panic, one other request in progress all the time whose duplicates are dropped (fewer if that takes more than 20 s)", 1, |i, l| {
        l.ops += 66_000;
        l.state(H::new().u(i).u(66));
        let e = block(false, async move {
            let mut r = start(None, false).await.expect("harness: start");
            let c = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
            let held = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
            let (a, b) = (c.local_addr().unwrap(), held.local_addr().unwrap());
            let one = datagram(b, 0, 0, 0);
            held.send_to(&one, r.to).await.expect("harness: send");
            if !r.w.until(|s| s.starts.len() == 1).await {
                return Some((0, "the first request was not handed over".to_string()));
            }
            let mut p = Packet::new_with_identifier(Code::AccessRequest, &secret(a), 0);
            let t0 = Instant::now();
            let mut done = 0;
            for n in 0..66_000usize {
                if t0.elapsed() > Duration::from_secs(20) {
                    break;
                }
                done += 1;
                p.set_identifier((n % 256) as u8);
                let d = p.encode().unwrap();
                c.send_to(&d, r.to).await.expect("harness: send");
                if n % 1000 == 0 {
                    held.send_to(&one, r.to).await.expect("harness: send");
                }
                if !r.w.until(|s| s.starts.len() >= n + 2).await {
                    return Some((0, format!("request {n} was not handed over")));
                }
                let tx = r.w.st.lock().unwrap().finish[n + 1].take();
                let how = match n % 64 {
                    1 => How::Error,
                    2 => How::Panic,
                    _ => How::Fine,
                };
                let _ = tx.expect("harness").send(how);
                if let Ok(x) = r.results.try_recv() {
                    return Some((0, format!("run() ended with {x:?} after request {n}")));
                }
            }
            if !r.settle().await {
                return Some((0, "the server does not handle requests any more".to_string()));
            }
            let s = r.w.st.lock().unwrap();
            let dup = s.starts[1..].iter().filter(|x| x.from == b).count();
            if dup > 0 {
                return Some((1, format!("{dup} duplicates of the request in progress were handed over")));
            }
            if s.starts.len() != done + 1 {
                return Some((2, format!("{} requests handed over", s.starts.len())));
            }
            None
        });
        if let Some((k, e)) = e {
            let props: &[&str] = match k {
                0 => &["C20", "C22", "C23"],
                1 => &["C21"],
                _ => &["C20"],
            };
            if props.contains(&prop) {
                l.fail(e);
            }
        }
    });
}

pub fn buffers(ctx: &Ctx) {
    let sizes: Vec<Option<usize>> = vec![None, Some(20), Some(21), Some(100), Some(1499), Some(1500), Some(1501), Some(2000), Some(4095), Some(4096), Some(5000)];
    let lens: Vec<usize> = vec![20, 22, 23, 99, 100, 101, 102, 1498, 1499, 1500, 1501, 1502, 2000, 2001, 4094, 4095, 4096];
    let n = (sizes.len() * lens.len() * 2) as u64;
    ctx.space("real-buffers", "every buffer size x every request size x validation on / off: handled in full exactly if it fits", n, |i, l| {
        let mut ix = Ix(i);
        let (b, len, skip) = (*ix.of(&sizes), *ix.of(&lens), ix.take(2) == 1);
        l.op();
        l.state(H::new().u(i));
        let e = block(false, async move {
            let mut r = start(b, skip).await.expect("harness: start");
            let c = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
            let a = c.local_addr().unwrap();
            let mut p = Packet::new_with_identifier(if skip { Code::AccountingRequest } else { Code::AccessRequest }, if skip { b"wrong".to_vec() } else { secret(a) }.as_slice(), 7);
            let mut left = len - 20;
            while left > 0 {
                let k = if left > 257 || left == 255 { 255.min(left) } else if left > 255 { left - 3 } else { left };
                p.add(AVP::from_bytes(18, &vec![left as u8; k - 2]));
                left -= k;
            }
            let d = p.encode().expect("harness: encode");
            assert_eq!(d.len(), len, "harness: size");
            c.send_to(&d, r.to).await.expect("harness: send");
            let fits = len <= b.unwrap_or(1500);
            if fits && !r.w.until(|s| !s.starts.is_empty()).await {
                return Some("was not handed over".to_string());
            }
            if !r.settle().await {
                return Some("stopped the server".into());
            }
            let s = r.w.st.lock().unwrap();
            if !fits && !s.starts.is_empty() {
                return Some("was handed over".into());
            }
            if fits && (s.starts.len() != 1 || s.starts[0].attrs.iter().map(|x| x.len() + 2).sum::<usize>() != len - 20) {
                return Some(format!("was handed over as {:?}", s.starts));
            }
            None
        });
        if let Some(e) = e {
            l.fail(format!("a request of {len} octets with buffer size {b:?} (validation {}) {e}", !skip));
        }
        if l.want_detail {
            l.note = format!("buffer {b:?} request of {len} octets, validation {}", !skip);
        }
    });
    ctx.space("real-validation", "forged requests of every type with the validation on, off, and left at its default", 5 * 3, |i, l| {
        let mut ix = Ix(i);
        let code = [Code::AccountingRequest, Code::DisconnectRequest, Code::CoARequest, Code::AccessAccept, Code::AccessRequest][ix.take(5) as usize];
        let skip = ix.take(3) == 1;
        l.op();
        l.state(H::new().u(i).u(7));
        let e = block(false, async move {
            let mut r = start(None, skip).await.expect("harness: start");
            let c = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
            let d = Packet::new_with_identifier(code, b"wrong", 7).encode().unwrap();
            c.send_to(&d, r.to).await.expect("harness: send");
            let take = skip || code == Code::AccessRequest;
            if take && !r.w.until(|s| !s.starts.is_empty()).await {
                return Some("was not handed over".to_string());
            }
            if !r.settle().await {
                return Some("stopped the server".into());
            }
            if !take && !r.w.st.lock().unwrap().starts.is_empty() {
                return Some("was handed over".into());
            }
            None
        });
        if let Some(e) = e {
            l.fail(format!("a forged {code:?} with the validation {}: {e}", if skip { "off" } else { "on" }));
        }
    });
}

/// Where servers listen, and servers side by side.
pub fn listens(ctx: &Ctx) {
    const HOSTS: [&str; 5] = ["127.0.0.1", "0.0.0.0", "127.0.0.2", "[::1]", "[::]"];
    ctx.space("real-listen", "5 hosts x (port chosen by the system, given, in use, host malformed): address reported, replies come from it; or the error of the binding", 5 * 4, |i, l| {
        let mut ix = Ix(i);
        let (host, what) = (HOSTS[ix.take(5) as usize], ix.take(4));
        l.op();
        l.state(H::new().u(i));
        let e = block(false, async move {
            let any = if host.starts_with('[') { "[::1]:0" } else { "127.0.0.1:0" };
            let c = match UdpSocket::bind(any).await {
                Ok(c) => c,
                // no such addresses here
                Err(_) => return None,
            };
            let free = UdpSocket::bind(format!("{host}:0")).await.expect("harness: socket").local_addr().unwrap().port();
            if what == 3 {
                return match start_at(&format!("{host}\0"), 0, None, false).await {
                    Ok(_) => Some("a malformed host was accepted".into()),
                    Err(_) => None,
                };
            }
            let port = if what == 0 { 0 } else { free };
            let mut r = match start_at(host, port, None, false).await {
                Ok(r) => r,
                // somebody else may have taken the port meanwhile
                Err(e) if what != 0 && e.kind() == std::io::ErrorKind::AddrInUse => return None,
                Err(e) => return Some(format!("failed: {e}")),
            };
            if r.bound.ip().to_string() != host.trim_matches(['[', ']']) || r.bound.port() == 0 || (port != 0 && r.bound.port() != port) {
                return Some(format!("listens on {}", r.bound));
            }
            if what == 2 {
                return match start_at(host, r.bound.port(), None, false).await {
                    Err(e) if e.kind() == std::io::ErrorKind::AddrInUse => None,
                    Err(e) => Some(format!("in use, but it failed with {e}")),
                    Ok(_) => Some("in use, but it succeeded".into()),
                };
            }
            r.w.st.lock().unwrap().reply = true;
            let mut b = [0u8; 4096];
            for id in [1u8, 2] {
                c.send_to(&datagram(c.local_addr().unwrap(), id, 0, 1), r.to).await.expect("harness: send");
                match tokio::time::timeout(PATIENCE, c.recv_from(&mut b)).await {
                    Ok(Ok((n, a))) if a == r.to && n > 22 && b[1] == id && b[22..n] == *r.bound.to_string().as_bytes() => {}
                    x => return Some(format!("the reply was {x:?}")),
                }
            }
            // IPv4 clients of a socket of both families have mapped addresses
            let both = std::fs::read("/proc/sys/net/ipv6/bindv6only").is_ok_and(|x| x.starts_with(b"0"));
            if host == "[::]" && both {
                let c = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
                let a = c.local_addr().unwrap();
                let seen: SocketAddr = (Ipv4Addr::LOCALHOST.to_ipv6_mapped(), a.port()).into();
                c.send_to(&datagram(seen, 3, 0, 1), (Ipv4Addr::LOCALHOST, r.bound.port())).await.expect("harness: send");
                match tokio::time::timeout(PATIENCE, c.recv_from(&mut b)).await {
                    Ok(Ok((n, _))) if n > 22 && b[1] == 3 && b[22..n] == *r.bound.to_string().as_bytes() => {}
                    x => return Some(format!("the reply to an IPv4 client was {x:?}")),
                }
                let from = r.w.st.lock().unwrap().starts.last().map(|s| s.from);
                if from != Some(seen) {
                    return Some(format!("the handler got {from:?} as the address of {seen}"));
                }
            }
            if !r.settle().await {
                return Some("does not go on".into());
            }
            None
        });
        if let Some(e) = e {
            l.fail(format!("listening on {host} ({}): {e}", ["port chosen by the system", "given port", "port in use", "malformed host"][what as usize]));
        }
        if l.want_detail {
            l.note = format!("{host}, {what}");
        }
    });
    let n = ctx.pick(3, 5) as u32;
    ctx.space("real-servers", "every sequence of n events at either of two servers in one process (request, the handlers end, one panics, shutdown or running again), with the same client and identifier at both", 8u64.pow(n), |i, l| {
        l.ops += n as u64;
        l.state(H::new().u(i).u(2));
        let mut ix = Ix(i);
        let ops: Vec<(usize, u8)> = (0..n).map(|_| (ix.take(2) as usize, ix.take(4) as u8)).collect();
        let o2 = ops.clone();
        let e = block(false, async move {
            let mut r = vec![start(None, false).await.expect("harness: start"), start(None, false).await.expect("harness: start")];
            let c = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
            let a = c.local_addr().unwrap();
            let mut up = [true; 2];
            let mut held = [false; 2];
            let mut waits = [false; 2];
            let mut want = [0usize; 2];
            let mut done = o2.clone();
            done.extend([(0, 4), (1, 4), (0, 1), (1, 1), (0, 0), (1, 0)]);
            for (k, (s, what)) in done.into_iter().enumerate() {
                match what {
                    0 => {
                        c.send_to(&datagram(a, 7, 0, k as u64), r[s].to).await.expect("harness: send");
                        waits[s] = true;
                    }
                    1 | 2 => {
                        if held[s] {
                            let tx = r[s].w.st.lock().unwrap().finish[want[s] - 1].take();
                            if tx.expect("harness").send(if what == 1 { How::Fine } else { How::Panic }).is_err() {
                                return Some(format!("step {k}: a handler of server {s} was cancelled"));
                            }
                            held[s] = false;
                            tokio::time::sleep(Duration::from_millis(2)).await;
                        }
                    }
                    3 if up[s] => {
                        up[s] = false;
                        r[s].stop.send(()).unwrap();
                        match tokio::time::timeout(PATIENCE, r[s].results.recv()).await {
                            Ok(Some(Ok(()))) => {}
                            x => return Some(format!("step {k}: run() of server {s} gave {x:?}")),
                        }
                    }
                    _ if !up[s] => {
                        up[s] = true;
                        r[s].go.send(()).unwrap();
                    }
                    _ => {}
                }
                for j in 0..2 {
                    if up[j] {
                        if std::mem::take(&mut waits[j]) && !held[j] {
                            held[j] = true;
                            want[j] += 1;
                        }
                        let w = want[j];
                        if !r[j].w.until(|s| s.starts.len() >= w).await || !r[j].settle().await {
                            return Some(format!("step {k}: server {j} does not hand over what it has to"));
                        }
                    }
                    if r[j].w.st.lock().unwrap().starts.len() != want[j] {
                        return Some(format!("step {k}: server {j} handed over {} requests instead of {}", r[j].w.st.lock().unwrap().starts.len(), want[j]));
                    }
                    if let Ok(x) = r[j].results.try_recv() {
                        return Some(format!("step {k}: run() of server {j} ended with {x:?}"));
                    }
                }
            }
            None
        });
        if let Some(e) = e {
            l.fail(format!("{ops:?} (server, event): {e}"));
        }
        if l.want_detail {
            l.note = format!("{ops:?}");
        }
    });
}
