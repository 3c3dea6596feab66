//! A simulated UDP network. Sockets of one execution see each other; everything sent to an
//! address nobody is bound to lands in the outbox, where the harness plays the remote.
pub use ::tokio::net::*;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// Fault or delay of one operation.
#[derive(Clone, Debug)]
pub enum Fault {
    None,
    Err(io::ErrorKind, &'static str),
    /// takes this long, then succeeds
    Delay(Duration),
    /// takes this long, then fails
    DelayErr(Duration, io::ErrorKind, &'static str),
    /// never completes
    Never,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Bind { sock: usize, asked: SocketAddr, at: u64 },
    BindFailed { asked: SocketAddr },
    Connect { sock: usize, to: SocketAddr, at: u64 },
    Send { sock: usize, from: SocketAddr, to: SocketAddr, data: Vec<u8>, at: u64 },
    Recv { sock: usize, len: usize, truncated: bool, at: u64 },
    Close { sock: usize, at: u64 },
}

struct Sock {
    local: SocketAddr,
    peer: Option<SocketAddr>,
    open: bool,
    q: VecDeque<(Vec<u8>, SocketAddr)>,
    errs: VecDeque<(io::ErrorKind, &'static str)>,
    wakers: Vec<Waker>,
}

#[derive(Default)]
pub struct State {
    socks: Vec<Sock>,
    next_port: u16,
    /// every port has been used once
    full_circle: bool,
    pub ops: Vec<Op>,
    /// faults of the coming operations, by kind; none when exhausted
    pub bind: VecDeque<Fault>,
    pub connect: VecDeque<Fault>,
    pub send: VecDeque<Fault>,
    pub recv: VecDeque<Fault>,
    pub local_addr_fails: bool,
}

#[derive(Default)]
pub struct Net {
    pub s: Mutex<State>,
}

/// The network of the current execution.
pub fn net() -> Arc<Net> {
    mcrt::ext::<Net>().expect("network outside an execution")
}

fn reaches(local: SocketAddr, to: SocketAddr) -> bool {
    local.port() == to.port() && local.is_ipv4() == to.is_ipv4() && (local.ip() == to.ip() || local.ip().is_unspecified())
}

impl Net {
    /// Put a datagram into the queue of the socket bound to `to`. Returns whether there is one.
    pub fn deliver(&self, from: SocketAddr, to: SocketAddr, data: &[u8]) -> bool {
        let ws = {
            let mut s = self.s.lock().unwrap();
            // a connected socket takes what comes from its peer, others everything
            let pick = s
                .socks
                .iter()
                .position(|k| k.open && reaches(k.local, to) && k.peer == Some(from))
                .or_else(|| s.socks.iter().position(|k| k.open && reaches(k.local, to) && k.peer.is_none()));
            let Some(i) = pick else { return false };
            s.socks[i].q.push_back((data.to_vec(), from));
            std::mem::take(&mut s.socks[i].wakers)
        };
        for w in ws {
            w.wake();
        }
        true
    }
    /// The next receive operation of the socket bound to `to` fails.
    pub fn deliver_error(&self, to: SocketAddr, kind: io::ErrorKind, msg: &'static str) -> bool {
        let ws = {
            let mut s = self.s.lock().unwrap();
            let Some(i) = s.socks.iter().position(|k| k.open && reaches(k.local, to)) else { return false };
            s.socks[i].errs.push_back((kind, msg));
            std::mem::take(&mut s.socks[i].wakers)
        };
        for w in ws {
            w.wake();
        }
        true
    }
    pub fn ops(&self) -> Vec<Op> {
        self.s.lock().unwrap().ops.clone()
    }
    /// everything sent so far: (socket, from, to, data, time)
    pub fn sent(&self) -> Vec<(usize, SocketAddr, SocketAddr, Vec<u8>, u64)> {
        self.s
            .lock()
            .unwrap()
            .ops
            .iter()
            .filter_map(|o| match o {
                Op::Send { sock, from, to, data, at } => Some((*sock, *from, *to, data.clone(), *at)),
                _ => None,
            })
            .collect()
    }
    pub fn ops_len(&self) -> usize {
        self.s.lock().unwrap().ops.len()
    }
    /// what has been sent after the first `n` operations
    pub fn sent_after(&self, n: usize) -> Vec<(SocketAddr, SocketAddr, Vec<u8>)> {
        self.s
            .lock()
            .unwrap()
            .ops
            .iter()
            .skip(n)
            .filter_map(|o| match o {
                Op::Send { from, to, data, .. } => Some((*from, *to, data.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn queued(&self, to: SocketAddr) -> usize {
        self.s.lock().unwrap().socks.iter().filter(|k| k.open && reaches(k.local, to)).map(|k| k.q.len()).sum()
    }
}

async fn fault(f: Fault) -> io::Result<()> {
    match f {
        Fault::None => Ok(()),
        Fault::Err(k, m) => Err(io::Error::new(k, m)),
        Fault::Delay(d) => {
            crate::time::sleep(d).await;
            Ok(())
        }
        Fault::DelayErr(d, k, m) => {
            crate::time::sleep(d).await;
            Err(io::Error::new(k, m))
        }
        Fault::Never => std::future::pending().await,
    }
}

fn now() -> u64 {
    mcrt::now().unwrap_or(0)
}

/// Addresses as text or values.
pub trait ToSocketAddrs {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
}
impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_socket_addrs()?.collect())
    }
}
fn first<A: ToSocketAddrs>(a: A) -> io::Result<SocketAddr> {
    a.resolve()?.into_iter().next().ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses"))
}

/// Addresses of a host, without a resolver task.
pub async fn lookup_host<A: ToSocketAddrs>(host: A) -> io::Result<impl Iterator<Item = SocketAddr>> {
    Ok(host.resolve()?.into_iter())
}

pub struct UdpSocket {
    id: usize,
    net: Arc<Net>,
}
impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UdpSocket({})", self.id)
    }
}

impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        let asked = first(addr)?;
        mcrt::point();
        let net = net();
        let f = net.s.lock().unwrap().bind.pop_front().unwrap_or(Fault::None);
        if let Err(e) = fault(f).await {
            net.s.lock().unwrap().ops.push(Op::BindFailed { asked });
            return Err(e);
        }
        let id = {
            let mut s = net.s.lock().unwrap();
            let mut local = asked;
            if local.port() == 0 {
                // the next free port out of 25000
                let mut tries = 0;
                loop {
                    s.next_port = s.next_port % 25_000 + 1;
                    let p = 40_000 + s.next_port;
                    if !s.full_circle || !s.socks.iter().any(|k| k.open && k.local.port() == p) {
                        local.set_port(p);
                        break;
                    }
                    tries += 1;
                    if tries == 25_000 {
                        return Err(io::Error::new(io::ErrorKind::AddrInUse, "no free port"));
                    }
                }
                s.full_circle |= s.next_port == 25_000;
            } else if s.socks.iter().any(|k| k.open && k.local == local) {
                return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
            }
            s.socks.push(Sock { local, peer: None, open: true, q: VecDeque::new(), errs: VecDeque::new(), wakers: vec![] });
            let sock = s.socks.len() - 1;
            s.ops.push(Op::Bind { sock, asked, at: now() });
            sock
        };
        mcrt::trace(|| format!("binds socket {id} to {asked}"));
        Ok(UdpSocket { id, net })
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        let s = self.net.s.lock().unwrap();
        if s.local_addr_fails {
            return Err(io::Error::new(io::ErrorKind::Other, "no local address"));
        }
        Ok(s.socks[self.id].local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.net.s.lock().unwrap().socks[self.id].peer.ok_or_else(|| io::ErrorKind::NotConnected.into())
    }

    pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        let to = first(addr)?;
        mcrt::point();
        let f = self.net.s.lock().unwrap().connect.pop_front().unwrap_or(Fault::None);
        fault(f).await?;
        let mut s = self.net.s.lock().unwrap();
        let id = self.id;
        if s.socks[id].local.is_ipv4() != to.is_ipv4() {
            return Err(io::Error::new(io::ErrorKind::Unsupported, "address family"));
        }
        s.socks[id].peer = Some(to);
        if s.socks[id].local.ip().is_unspecified() {
            let ip = if to.is_ipv4() { IpAddr::V4(Ipv4Addr::LOCALHOST) } else { IpAddr::V6(Ipv6Addr::LOCALHOST) };
            s.socks[id].local.set_ip(ip);
        }
        s.socks[id].q.retain(|d| d.1 == to);
        s.ops.push(Op::Connect { sock: id, to, at: now() });
        drop(s);
        mcrt::trace(|| format!("connects socket {id} to {to}"));
        Ok(())
    }

    fn transmit(&self, to: SocketAddr, data: &[u8]) -> io::Result<usize> {
        if data.len() > 65507 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "message too long"));
        }
        let from = {
            let mut s = self.net.s.lock().unwrap();
            let from = s.socks[self.id].local;
            s.ops.push(Op::Send { sock: self.id, from, to, data: data.to_vec(), at: now() });
            from
        };
        mcrt::trace(|| format!("socket {} sends {} octets to {to}", self.id, data.len()));
        self.net.deliver(from, to, data);
        Ok(data.len())
    }
    pub async fn send(&self, data: &[u8]) -> io::Result<usize> {
        mcrt::point();
        let f = self.net.s.lock().unwrap().send.pop_front().unwrap_or(Fault::None);
        fault(f).await?;
        let to = self.peer_addr()?;
        self.transmit(to, data)
    }
    pub async fn send_to<A: ToSocketAddrs>(&self, data: &[u8], to: A) -> io::Result<usize> {
        let to = first(to)?;
        mcrt::point();
        let f = self.net.s.lock().unwrap().send.pop_front().unwrap_or(Fault::None);
        fault(f).await?;
        self.transmit(to, data)
    }
    pub fn try_send(&self, data: &[u8]) -> io::Result<usize> {
        mcrt::point();
        let to = self.peer_addr()?;
        self.transmit(to, data)
    }
    pub fn try_send_to(&self, data: &[u8], to: SocketAddr) -> io::Result<usize> {
        mcrt::point();
        self.transmit(to, data)
    }

    fn take(&self, buf: &mut [u8], peek: bool, cx: Option<&mut Context<'_>>) -> Poll<io::Result<(usize, SocketAddr)>> {
        let mut s = self.net.s.lock().unwrap();
        let k = &mut s.socks[self.id];
        if let Some((kind, m)) = k.errs.pop_front() {
            return Poll::Ready(Err(io::Error::new(kind, m)));
        }
        let d = if peek { k.q.front().cloned() } else { k.q.pop_front() };
        match d {
            Some((d, from)) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                if !peek {
                    s.ops.push(Op::Recv { sock: self.id, len: n, truncated: n < d.len(), at: now() });
                    drop(s);
                    mcrt::trace(|| format!("socket {} receives {n} of {} octets from {from}", self.id, d.len()));
                }
                Poll::Ready(Ok((n, from)))
            }
            None => {
                if let Some(cx) = cx {
                    k.wakers.push(cx.waker().clone());
                }
                Poll::Pending
            }
        }
    }
    async fn get(&self, buf: &mut [u8], peek: bool) -> io::Result<(usize, SocketAddr)> {
        let f = if peek { None } else { self.net.s.lock().unwrap().recv.pop_front() };
        if let Some(f) = f {
            fault(f).await?;
        }
        poll_fn(|cx| {
            mcrt::point();
            self.take(buf, peek, Some(cx))
        })
        .await
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.get(buf, false).await.map(|x| x.0)
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.get(buf, false).await
    }
    pub async fn recv_buf(&self, buf: &mut Vec<u8>) -> io::Result<usize> {
        self.recv_buf_from(buf).await.map(|x| x.0)
    }
    pub async fn recv_buf_from(&self, buf: &mut Vec<u8>) -> io::Result<(usize, SocketAddr)> {
        let room = (buf.capacity() - buf.len()).max(64);
        let mut b = vec![0; room];
        let (n, a) = self.get(&mut b, false).await?;
        buf.extend_from_slice(&b[..n]);
        Ok((n, a))
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.get(buf, true).await.map(|x| x.0)
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.get(buf, true).await
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            mcrt::point();
            let mut s = self.net.s.lock().unwrap();
            let k = &mut s.socks[self.id];
            if k.q.is_empty() && k.errs.is_empty() {
                k.wakers.push(cx.waker().clone());
                Poll::Pending
            } else {
                Poll::Ready(Ok(()))
            }
        })
        .await
    }
    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn try_recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.try_recv_from(buf).map(|x| x.0)
    }
    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        mcrt::point();
        match self.take(buf, false, None) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for UdpSocket {
    fn drop(&mut self) {
        let mut s = self.net.s.lock().unwrap();
        s.socks[self.id].open = false;
        s.ops.push(Op::Close { sock: self.id, at: now() });
    }
}
