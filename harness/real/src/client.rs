use crate::engine::*;
use crate::server::{block, PATIENCE};
use async_trait::async_trait;
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;

const S: &[u8] = b"the client's secret";
const WAIT: Duration = Duration::from_millis(150);

fn variant(e: &ClientError) -> &'static str {
    match e {
        ClientError::FailedUdpSocketBindingError(..) => "bind",
        ClientError::FailedEstablishingUdpConnectionError(..) => "connect",
        ClientError::FailedRadiusPacketEncodingError(..) => "encode",
        ClientError::FailedSendingRadiusPacketError(..) => "send",
        ClientError::FailedReceivingResponseError(..) => "receive",
        ClientError::FailedDecodingRadiusResponseError(..) => "decode",
        ClientError::ConnectionTimeoutError(..) => "connection-timeout",
        ClientError::SocketTimeoutError(..) => "socket-timeout",
    }
}

/// what the peer answers with
const ANSWERS: [&str; 12] = ["good", "good, padded", "other identifier", "other secret", "made for another request", "cut", "empty", "malformed", "bit flipped", "first from a stranger, then good", "none", "late"];

fn answer(kind: &str, q: &Packet, code: Code) -> Vec<u8> {
    let mut r = q.make_response_packet(code);
    r.add(AVP::from_bytes(18, b"welcome"));
    let good = r.encode().unwrap();
    match kind {
        "good, padded" => [good, vec![1, 2, 3]].concat(),
        "other identifier" => {
            r.set_identifier(q.get_identifier().wrapping_add(1));
            r.encode().unwrap()
        }
        "other secret" => {
            let w = Packet::decode(&q.encode().unwrap(), b"no").unwrap();
            w.make_response_packet(code).encode().unwrap()
        }
        "made for another request" => Packet::new_with_identifier(Code::AccessRequest, S, q.get_identifier()).make_response_packet(code).encode().unwrap(),
        "cut" => good[..good.len() - 1].to_vec(),
        "empty" => vec![],
        "malformed" => {
            let mut b = good;
            b[21] = 1;
            b
        }
        "bit flipped" => {
            let mut b = good;
            b[22] ^= 1;
            b
        }
        _ => good,
    }
}

pub fn cases(ctx: &Ctx, prop: &str) {
    let reqs = [Code::AccessRequest, Code::AccountingRequest, Code::DisconnectRequest, Code::CoARequest, Code::StatusServer, Code::Reserved];
    let resp = [Code::AccessAccept, Code::AccountingResponse, Code::DisconnectACK, Code::CoANAK, Code::AccessChallenge, Code::AccessReject];
    let n = (reqs.len() * ANSWERS.len() * 4 * 2) as u64;
    ctx.space("real-calls", "every request type x answer of the peer (12 kinds) x which timeouts are set x address family: result, and what was sent", n, |i, l| {
        let mut ix = Ix(i);
        let k = ix.take(reqs.len() as u64) as usize;
        let kind = ANSWERS[ix.take(ANSWERS.len() as u64) as usize];
        let (ct, st) = (ix.take(2) == 1, ix.take(2) == 1);
        let v6 = ix.take(2) == 1;
        if kind == "none" && !st {
            return; // waits for ever
        }
        l.op();
        l.state(H::new().u(i));
        let e = block(false, async move {
            let peer = match UdpSocket::bind(if v6 { "[::1]:0" } else { "127.0.0.1:0" }).await {
                Ok(p) => p,
                Err(_) if v6 => return None, // no IPv6 here
                Err(e) => panic!("harness: {e}"),
            };
            let to = peer.local_addr().unwrap();
            let mut q = Packet::new_with_identifier(reqs[k], S, 200);
            q.add(AVP::from_bytes(1, b"name"));
            // long enough not to end a call that is answered, short where nothing comes
            let none = kind == "none";
            let late = kind == "late";
            let sock = if none { WAIT } else { Duration::from_secs(20) };
            let (q1, code) = (q.clone(), resp[k]);
            let sendable = reqs[k] != Code::Reserved;
            let srv = async move {
                let mut b = [0u8; 5000];
                let (n, from) = match tokio::time::timeout(if sendable { PATIENCE } else { Duration::from_millis(60) }, peer.recv_from(&mut b)).await {
                    Ok(Ok(x)) => x,
                    _ => return (vec![], None),
                };
                let seen = b[..n].to_vec();
                let mut sent = None;
                if !none {
                    if kind.starts_with("first") {
                        let x = UdpSocket::bind(if v6 { "[::1]:0" } else { "127.0.0.1:0" }).await.unwrap();
                        let _ = x.send_to(&[0; 30], from).await;
                    }
                    if late {
                        tokio::time::sleep(WAIT).await;
                    }
                    if let Ok(r) = Packet::decode(&seen, S) {
                        let a = answer(kind, &r, code);
                        let _ = peer.send_to(&a, from).await;
                        sent = Some(a);
                    }
                }
                // nothing else may come
                let extra = tokio::time::timeout(Duration::from_millis(if none { 200 } else { 5 }), peer.recv_from(&mut b)).await;
                (seen, match extra {
                    Ok(Ok((n, _))) => Some(format!("a second datagram {}", hex(&b[..n]))),
                    _ => sent.map(|s| hex(&s)),
                })
            };
            let t = Instant::now();
            let client = Client::new(ct.then_some(Duration::from_secs(20)), st.then_some(sock));
            let call = async {
                let r = tokio::time::timeout(Duration::from_secs(25), client.send_packet(&to, &q)).await;
                (r, t.elapsed())
            };
            let ((r, took), (seen, note)) = tokio::join!(call, srv);
            let d = format!("request {:?}, answer {kind:?}, timeouts {:?}", reqs[k], (ct, st));
            if !sendable {
                if !seen.is_empty() && prop == "C25" {
                    return Some(format!("{d}: sent {}", hex(&seen)));
                }
                return match r {
                    Ok(Err(e)) if variant(&e) == "encode" => None,
                    x if prop == "C25" => Some(format!("{d}: ended with {x:?}")),
                    _ => None,
                };
            }
            if prop == "C25" {
                if seen != q1.encode().unwrap() {
                    return Some(format!("{d}: sent {} instead of {}", hex(&seen), hex(&q1.encode().unwrap())));
                }
                if let Some(x) = note.filter(|x| x.starts_with('a') && x.contains(' ')) {
                    return Some(format!("{d}: {x}"));
                }
            }
            let want: Result<(), &str> = match kind {
                "none" => Err("socket-timeout"),
                "good" | "late" | "good, padded" => Ok(()),
                k if k.starts_with("first") => Ok(()),
                _ => Err("decode"),
            };
            let got = match &r {
                Err(_) => Err("for ever"),
                Ok(Ok(_)) => Ok(()),
                Ok(Err(e)) => Err(variant(e)),
            };
            if got != want {
                // whose business: timeouts C26, acceptance C27, the rest C25
                let p = if want == Err("socket-timeout") || matches!(got, Err("socket-timeout") | Err("connection-timeout") | Err("for ever")) {
                    "C26"
                } else if got.is_ok() || got == Err("decode") || want == Err("decode") {
                    "C27"
                } else {
                    "C25"
                };
                return (p == prop || prop == "C25").then(|| format!("{d}: ended with {got:?} instead of {want:?}"));
            }
            if prop == "C26" && (none || late) && took < WAIT - Duration::from_millis(2) {
                return Some(format!("{d}: ended after {took:?}"));
            }
            if let (Ok(Ok(p)), "C27") = (&r, prop) {
                if p.get_code() != resp[k] || p.get_identifier() != 200 || p.lookup_all(18).iter().map(|x| x.encode_bytes()).collect::<Vec<_>>() != vec![b"welcome".to_vec()] {
                    return Some(format!("{d}: returned {p:?}"));
                }
            }
            None
        });
        if let Some(e) = e {
            l.fail(e);
        }
        if l.want_detail {
            l.note = format!("{:?} answered with {kind}", reqs[k]);
        }
    });
    if prop == "C25" {
        // calls at once: nobody waits for anybody
        let ns = [2usize, 3, 5, 9, 17, 40];
        ctx.space("real-concurrent", "2..40 calls at once on one client or one each, to one server or one each, with one identifier or one each, one of them (first, last, none) not answered before the others have returned, on two kinds of runtime", (ns.len() * 3 * 2 * 2 * 2 * 2) as u64, |i, l| {
            let mut ix = Ix(i);
            let n = *ix.of(&ns);
            let stalled = [usize::MAX, 0, n - 1][ix.take(3) as usize];
            let (one_client, one_remote, one_id, multi) = (ix.take(2) == 1, ix.take(2) == 1, ix.take(2) == 1, ix.take(2) == 1);
            l.ops += n as u64;
            l.state(H::new().u(i).u(11));
            let e = block(multi, async move {
                let mut peers = vec![];
                for _ in 0..if one_remote { 1 } else { n } {
                    peers.push(UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket"));
                }
                let client = std::sync::Arc::new(Client::new(None, None));
                let mut calls = vec![];
                for k in 0..n {
                    let c = if one_client { client.clone() } else { std::sync::Arc::new(Client::new(None, None)) };
                    let to = peers[k % peers.len()].local_addr().unwrap();
                    let mut q = Packet::new_with_identifier(Code::AccessRequest, S, if one_id { 7 } else { k as u8 });
                    q.add(AVP::from_u32(5, k as u32));
                    calls.push(Some(tokio::spawn(async move { c.send_packet(&to, &q).await })));
                }
                // every request arrives, whatever becomes of the others
                let mut got: Vec<Option<(usize, Packet, SocketAddr)>> = vec![None; n];
                for m in 0..n {
                    let at = m % peers.len();
                    let mut b = [0u8; 5000];
                    let (len, from) = match tokio::time::timeout(PATIENCE, peers[at].recv_from(&mut b)).await {
                        Ok(Ok(x)) => x,
                        _ => return Some(format!("only {m} of {n} requests were sent")),
                    };
                    let p = match Packet::decode(&b[..len], S) {
                        Ok(p) => p,
                        Err(e) => return Some(format!("sent what is no packet: {e}")),
                    };
                    let k = p.lookup(5).and_then(|a| a.encode_u32().ok()).unwrap_or(u32::MAX) as usize;
                    if k >= n || got[k].is_some() || (!one_remote && k != at) {
                        return Some(format!("request {k} was sent twice or to another remote"));
                    }
                    if got.iter().flatten().any(|g| g.2 == from) {
                        return Some("two calls used one socket".into());
                    }
                    got[k] = Some((at, p, from));
                }
                for k in (0..n).rev().filter(|k| *k != stalled).chain((stalled < n).then_some(stalled)) {
                    let (at, p, from) = got[k].as_ref().unwrap();
                    let mut a = p.make_response_packet(Code::AccessAccept);
                    a.add(AVP::from_u32(5, k as u32));
                    peers[*at].send_to(&a.encode().unwrap(), *from).await.expect("harness: send");
                    match tokio::time::timeout(PATIENCE, calls[k].take().unwrap()).await {
                        Err(_) => return Some(format!("call {k} has not returned though it was answered")),
                        Ok(Ok(Ok(r))) if r.lookup(5).and_then(|a| a.encode_u32().ok()) == Some(k as u32) => {}
                        Ok(x) => return Some(format!("call {k} ended with {x:?}")),
                    }
                }
                None
            });
            if let Some(e) = e {
                l.fail(format!("{n} calls at once, {} not answered before the others: {e}", if stalled < n { format!("number {stalled}") } else { "none".into() }));
            }
            if l.want_detail {
                l.note = format!("{n} calls");
            }
        });
        ctx.space("real-refused", "a peer that is not there: the call reports the failure of receiving (or sending)", 4, |i, l| {
            let (ct, st) = (i % 2 == 1, i / 2 == 1);
            l.op();
            l.state(H::new().u(i).u(9));
            let e = block(false, async move {
                let s = UdpSocket::bind("127.0.0.1:0").await.expect("harness: socket");
                let to = s.local_addr().unwrap();
                drop(s);
                let c = Client::new(ct.then_some(PATIENCE), st.then_some(PATIENCE));
                match tokio::time::timeout(PATIENCE * 2, c.send_packet(&to, &Packet::new(Code::AccessRequest, S))).await {
                    Ok(Err(e)) if variant(&e) == "receive" => None,
                    x => Some(format!("{x:?}")),
                }
            });
            if let Some(e) = e {
                l.fail(format!("nobody listening: {e}"));
            }
        });
    }
}

struct Echo;
#[async_trait]
impl RequestHandler<(), ()> for Echo {
    async fn handle_radius_request(&self, conn: &UdpSocket, r: &Request) -> Result<(), ()> {
        let p = r.get_packet();
        let code = match p.get_code() {
            Code::AccountingRequest => Code::AccountingResponse,
            Code::DisconnectRequest => Code::DisconnectACK,
            Code::CoARequest => Code::CoANAK,
            _ => Code::AccessAccept,
        };
        let mut a = p.make_response_packet(code);
        for t in 0..=255u8 {
            for x in p.lookup_all(t) {
                a.add(AVP::from_bytes(t, &x.encode_bytes()));
            }
        }
        conn.send_to(&a.encode().unwrap(), r.get_remote_addr()).await.map_err(|_| ())?;
        Ok(())
    }
}
struct One;
impl SecretProvider for One {
    fn fetch_secret(&self, _: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        Ok(S.to_vec())
    }
}

pub fn exchange(ctx: &Ctx) {
    let reqs = [Code::AccessRequest, Code::AccountingRequest, Code::DisconnectRequest, Code::CoARequest, Code::StatusServer];
    let sizes = [20usize, 22, 100, 1499, 1500, 1501, 2048, 4095, 4096];
    let n = (reqs.len() * sizes.len() * 4 * 2) as u64;
    ctx.space("real-exchange", "every request type x packet size x 1..4 concurrent clients x runtime: every client gets the attributes it sent back", n, |i, l| {
        let mut ix = Ix(i);
        let code = *ix.of(&reqs);
        let size = *ix.of(&sizes);
        let clients = ix.take(4) as usize + 1;
        let multi = ix.take(2) == 1;
        l.ops += clients as u64;
        l.state(H::new().u(i));
        let e = block(multi, async move {
            let mut s = Server::listen("127.0.0.1", 0, Echo, One).await.expect("harness: listen");
            s.set_buffer_size(4096);
            let to = s.get_listen_address().unwrap();
            tokio::spawn(async move { s.run(std::future::pending::<()>()).await.map_err(|e| e.to_string()) });
            let mut hs = vec![];
            for c in 0..clients {
                hs.push(tokio::spawn(async move {
                    let mut q = Packet::new_with_identifier(code, S, 9);
                    let mut want = vec![];
                    let mut left = size - 20;
                    let mut t = 1u8;
                    while left > 0 {
                        let k = if left > 257 || left == 255 { 255.min(left) } else if left > 255 { left - 3 } else { left };
                        let v: Vec<u8> = (0..k - 2).map(|x| (x * 7 + c * 31 + left) as u8).collect();
                        q.add(AVP::from_bytes(t, &v));
                        want.push((t, v));
                        left -= k;
                        t += 1;
                    }
                    let cl = Client::new(None, Some(PATIENCE));
                    match cl.send_packet(&to, &q).await {
                        Err(e) => Some(format!("client {c}: {e:?}")),
                        Ok(r) => {
                            let got: Vec<(u8, Vec<u8>)> = (0..=255u8).flat_map(|t| r.lookup_all(t).into_iter().map(move |x| (t, x.encode_bytes())).collect::<Vec<_>>()).collect();
                            (got != want || r.get_identifier() != 9).then(|| format!("client {c} got {r:?}"))
                        }
                    }
                }));
            }
            for h in hs {
                if let Some(e) = h.await.unwrap_or_else(|e| Some(e.to_string())) {
                    return Some(e);
                }
            }
            None
        });
        if let Some(e) = e {
            l.fail(format!("{code:?}, {size} octets, {clients} clients: {e}"));
        }
        if l.want_detail {
            l.note = format!("{code:?}, {size} octets, {clients} clients");
        }
    });
}
