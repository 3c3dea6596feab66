//! Scenarios of the client.
use crate::model::{self, MPacket};
use crate::server::sa;
use crate::util;
use crate::world::{report, same};
use crate::Scenario;
use mcrt::{choose, Budget};
use mctokio::net::{net, Fault, Op};
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const SECRET: &[u8] = b"xyzzy5461-sesame";

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

/// one call of the client
pub struct Call {
    /// result and time of the end
    pub res: Mutex<Option<(Result<Packet, ClientError>, u64)>>,
    pub panicked: Mutex<bool>,
    abort: Mutex<Option<mctokio::task::AbortHandle>>,
}

pub fn call(client: &Arc<Client>, remote: SocketAddr, p: Packet) -> Arc<Call> {
    let c = Arc::new(Call { res: Mutex::new(None), panicked: Mutex::new(false), abort: Mutex::default() });
    let (c2, cl) = (c.clone(), client.clone());
    let h = mctokio::spawn(async move {
        struct Note(Arc<Call>);
        impl Drop for Note {
            fn drop(&mut self) {
                if self.0.res.lock().unwrap().is_none() && mcrt::active() && !mcrt::draining() {
                    *self.0.panicked.lock().unwrap() = true;
                }
            }
        }
        let n = Note(c2.clone());
        let r = cl.send_packet(&remote, &p).await;
        mcrt::trace(|| format!("the call ends: {r:?}"));
        mcrt::digest(77);
        *c2.res.lock().unwrap() = Some((r, mcrt::now().unwrap()));
        drop(n);
    });
    *c.abort.lock().unwrap() = Some(h.abort_handle());
    c
}

pub fn kind(r: &Result<Packet, ClientError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(ClientError::FailedUdpSocketBindingError(_)) => "bind",
        Err(ClientError::FailedEstablishingUdpConnectionError(_, _)) => "connect",
        Err(ClientError::FailedRadiusPacketEncodingError(_)) => "encode",
        Err(ClientError::FailedSendingRadiusPacketError(_, _)) => "send",
        Err(ClientError::FailedReceivingResponseError(_, _)) => "receive",
        Err(ClientError::FailedDecodingRadiusResponseError(_)) => "decode",
        Err(ClientError::ConnectionTimeoutError()) => "connection timeout",
        Err(ClientError::SocketTimeoutError()) => "socket timeout",
    }
}

fn remote(v6: bool) -> SocketAddr {
    if v6 {
        sa("[2001:db8::1812]:1812")
    } else {
        sa("192.0.2.18:1812")
    }
}

/// the request with the model's view of it
fn req(code: u8, id: u8, seed: u64, secret: &[u8], attrs: Vec<model::Attr>) -> (Packet, MPacket) {
    let m = MPacket { code, id, auth: util::auth16(seed), attrs };
    (util::build(&m, secret), m)
}

/// a genuine response to the request as it was sent
pub fn response(code: u8, id: u8, sent: &[u8], secret: &[u8], attrs: Vec<model::Attr>) -> Vec<u8> {
    let mut auth = [0; 16];
    auth.copy_from_slice(&sent[4..20]);
    let total = 20 + attrs.iter().map(|a| a.1.len() + 2).sum::<usize>();
    let mut bs = vec![code, id, (total >> 8) as u8, total as u8];
    bs.extend(auth);
    for (t, v) in &attrs {
        bs.push(*t);
        bs.push(v.len() as u8 + 2);
        bs.extend(v);
    }
    sign(&mut bs, &auth, secret);
    bs
}
fn sign(bs: &mut [u8], seed: &[u8], secret: &[u8]) {
    let l = (bs[2] as usize * 256 + bs[3] as usize).clamp(20, bs.len());
    let d = model::md5(&[&bs[..4], seed, &bs[20..l], secret]);
    bs[4..20].copy_from_slice(&d);
}
const RESP: [u8; 8] = [2, 3, 5, 11, 41, 42, 44, 45];

fn finish(c: &Call, what: &dyn Fn() -> String) -> Option<(&'static str, u64)> {
    if *c.panicked.lock().unwrap() {
        report("panic", || format!("{}: the call panicked", what()));
        return None;
    }
    let g = c.res.lock().unwrap();
    match &*g {
        Some((r, t)) => Some((kind(r), *t)),
        None => None,
    }
}
/// the packet returned is the datagram
fn check_packet(c: &Call, data: &[u8], secret: &[u8], tag: &str, what: &dyn Fn() -> String) {
    let g = c.res.lock().unwrap();
    if let Some((Ok(p), _)) = &*g {
        let ok = model::parse(data).is_some_and(|m| same(p, &m, secret));
        if !ok {
            let d = format!("{p:?}");
            drop(g);
            report(tag, || format!("{}: returned {d}, received {}", what(), crate::engine::hex(data)));
        }
    }
}

/// unencodable and encodable requests
fn requests(thorough: bool) -> Vec<(String, Packet, Option<MPacket>)> {
    let mut v = vec![];
    for c in model::SENDABLE {
        if !thorough && ![1u8, 4, 12, 2].contains(&c) {
            continue;
        }
        let (p, m) = req(c, 5, c as u64, SECRET, vec![(1, b"alice".to_vec())]);
        v.push((format!("code {c}"), p, Some(m)));
    }
    let big: Vec<model::Attr> = (0..16).map(|i| (25, util::pattern(if i == 15 { 247 } else { 253 }, i))).chain([(1, vec![])]).collect();
    let (p, m) = req(1, 9, 3, SECRET, big.clone());
    assert!(model::encode(&m, SECRET).is_some());
    v.push(("4096 octets".into(), p, Some(m)));
    for c in [13u8, 255] {
        let (p, _) = req(c, 5, 1, SECRET, vec![]);
        v.push((format!("code {c} cannot be sent"), p, None));
    }
    let (mut p, _) = req(1, 5, 1, SECRET, vec![]);
    p.add(AVP::from_bytes(25, &util::pattern(254, 1)));
    v.push(("an attribute too long".into(), p, None));
    let (mut p, _) = req(1, 5, 1, SECRET, big);
    p.add(AVP::from_bytes(25, &util::pattern(200, 1)));
    v.push(("more than 4096 octets".into(), p, None));
    v
}

/// Which step fails, how, and with which timeouts set.
fn steps(thorough: bool) -> Scenario {
    Scenario::new(
        "steps",
        "every combination of outcomes of binding, connecting, encoding, sending and receiving (immediate or delayed success or failure) x request x timeouts x IPv4/IPv6".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let rs = requests(thorough);
            let (what, p, m) = &rs[choose(rs.len())];
            let v6 = choose(2) == 1;
            let to = [(None, None), (Some(ms(60_000)), None), (None, Some(ms(60_000))), (Some(ms(60_000)), Some(ms(60_000)))][choose(4)];
            let f = |e: &'static str| -> Vec<Fault> { vec![Fault::None, Fault::Err(ErrorKind::Other, e), Fault::Delay(ms(500)), Fault::DelayErr(ms(500), ErrorKind::PermissionDenied, e)] };
            let pick = |v: Vec<Fault>| {
                let i = choose(v.len());
                (i % 2 == 1, v[i].clone())
            };
            let (bf, b) = pick(f("bind!"));
            let (cf, c) = if bf { (false, Fault::None) } else { pick(f("connect!")) };
            let early = bf || cf || m.is_none();
            let (sf, s) = if early { (false, Fault::None) } else { pick(f("send!")) };
            let (rf, r) = if early || sf { (false, Fault::None) } else { pick(f("receive!")) };
            {
                let n = net();
                let mut g = n.s.lock().unwrap();
                g.bind.push_back(b);
                g.connect.push_back(c);
                g.send.push_back(s);
                g.recv.push_back(r);
            }
            let rem = remote(v6);
            let client = Arc::new(Client::new(to.0, to.1));
            let k = call(&client, rem, p.clone());
            let desc = || format!("{what}, to {rem}, timeouts {to:?}, bind fails {bf}, connect fails {cf}, send fails {sf}, receive fails {rf}");
            mcrt::quiesce();
            // let delays pass, well below the timeouts
            for _ in 0..8 {
                mcrt::sleep(ms(500));
                mcrt::quiesce();
            }
            let sent = net().sent();
            let wire = m.as_ref().and_then(|m| model::encode(m, SECRET));
            if !early && !sf {
                if sent.len() != 1 || Some(&sent[0].3) != wire.as_ref() || sent[0].2 != rem {
                    report("sent", || format!("{}: sent {:?}", desc(), sent.iter().map(|x| (x.2, crate::engine::hex(&x.3))).collect::<Vec<_>>()));
                    return;
                }
            } else if !sent.is_empty() {
                report("sent", || format!("{}: {} datagrams were sent", desc(), sent.len()));
            }
            let mut resp = vec![];
            if !early && !sf && !rf {
                if finish(&k, &desc).is_some() {
                    report("result", || format!("{}: ended before the response: {:?}", desc(), finish(&k, &desc)));
                    return;
                }
                resp = response(2, sent[0].3[1], &sent[0].3, SECRET, vec![(18, b"welcome".to_vec())]);
                net().deliver(rem, sent[0].1, &resp);
                mcrt::quiesce();
            }
            // which results are right
            let mut want: Vec<&str> = vec![];
            if bf {
                want.push("bind");
            } else if cf {
                want.push("connect");
            }
            if m.is_none() {
                want.push("encode");
            }
            if want.is_empty() {
                want.push(if sf {
                    "send"
                } else if rf {
                    "receive"
                } else {
                    "ok"
                });
            }
            match finish(&k, &desc) {
                Some((got, _)) if want.contains(&got) => {}
                got => report("result", || format!("{}: ended with {got:?} instead of {want:?}", desc())),
            }
            check_packet(&k, &resp, SECRET, "result", &desc);
            // the socket
            let ops = net().ops();
            let binds: Vec<_> = ops.iter().filter_map(|o| if let Op::Bind { asked, .. } = o { Some(*asked) } else { None }).collect();
            if !bf && !want.contains(&"encode") {
                if binds.len() != 1 || binds[0].is_ipv4() == v6 || binds[0].port() != 0 {
                    report("socket", || format!("{}: bound {binds:?}", desc()));
                }
                let conns: Vec<_> = ops.iter().filter_map(|o| if let Op::Connect { to, .. } = o { Some(*to) } else { None }).collect();
                if !cf && conns != [rem] {
                    report("socket", || format!("{}: connected to {conns:?}", desc()));
                }
            }
        },
    )
}

/// A datagram from somewhere else does not count.
fn strangers() -> Scenario {
    Scenario::new(
        "strangers",
        "datagrams from other addresses (genuine or not) before the response of the remote; requests of all types".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let c = model::SENDABLE[choose(13)];
            let v6 = choose(2) == 1;
            let rem = remote(v6);
            let (p, _) = req(c, 77, 5, SECRET, vec![]);
            let client = Arc::new(Client::new(None, Some(ms(1000))));
            let k = call(&client, rem, p);
            let desc = || format!("request type {c} to {rem}, strangers first");
            mcrt::quiesce();
            let sent = net().sent();
            if sent.len() != 1 {
                return report("sent", || format!("{}: {} datagrams were sent", desc(), sent.len()));
            }
            let genuine = response(2, 77, &sent[0].3, SECRET, vec![]);
            let mut o1 = rem;
            o1.set_port(1813);
            let o2 = if v6 { sa("[2001:db8::bad]:1812") } else { sa("192.0.2.66:1812") };
            let bad = choose(2) == 1;
            for o in [o1, o2] {
                net().deliver(o, sent[0].1, if bad { b"junk" } else { &genuine });
            }
            mcrt::quiesce();
            if finish(&k, &desc).is_some() {
                report("result", || format!("{}: a datagram from elsewhere ended the call: {:?}", desc(), finish(&k, &desc)));
            }
            net().deliver(rem, sent[0].1, &genuine);
            mcrt::quiesce();
            if finish(&k, &desc).map(|x| x.0) != Some("ok") {
                report("result", || format!("{}: {:?}", desc(), finish(&k, &desc)));
            }
            check_packet(&k, &genuine, SECRET, "result", &desc);
        },
    )
}

/// Concurrent calls on one client.
fn concurrent(n: usize, preempt: u32) -> Scenario {
    Scenario::new(
        &format!("concurrent-{n}"),
        format!("{n} concurrent calls on one client (same or different remote, identifier and secret), answered in every order, one of them possibly with a forged response, an error or never; at most {preempt} preemptions"),
        Budget { preemptions: preempt, selects: 0, ..Default::default() },
        move || {
            let same_remote = choose(2) == 1;
            let same_id = choose(2) == 1;
            let odd = choose(4);
            let client = Arc::new(Client::new(Some(ms(1000)), Some(ms(2000))));
            let mut calls = vec![];
            for i in 0..n {
                let rem = if same_remote { remote(false) } else { sa(&format!("192.0.2.{}:1812", 20 + i)) };
                let id = if same_id { 4 } else { 4 + i as u8 };
                let (p, m) = req([1, 4, 1][i], id, 30 + i as u64, SECRET, vec![(1, vec![b'u', i as u8])]);
                calls.push((call(&client, rem, p), rem, m));
            }
            mcrt::quiesce();
            mcrt::freeze();
            let sent = net().sent();
            let desc = |i: usize| format!("call {i} of {n}");
            let mut ports: Vec<_> = sent.iter().map(|s| s.1).collect();
            ports.sort();
            ports.dedup();
            if sent.len() != n || ports.len() != n {
                return report("sent", || format!("{n} calls sent {} datagrams from {} sockets", sent.len(), ports.len()));
            }
            let mut order: Vec<usize> = (0..n).collect();
            let mut perm = vec![];
            while !order.is_empty() {
                perm.push(order.remove(choose(order.len())));
            }
            let mut resp: Vec<Vec<u8>> = vec![vec![]; n];
            for i in perm {
                let (_, rem, m) = &calls[i];
                let wire = model::encode(m, SECRET).unwrap();
                let Some(s) = sent.iter().find(|s| s.3 == wire && s.2 == *rem) else {
                    return report("sent", || format!("{}: its request was not sent", desc(i)));
                };
                resp[i] = response(2, m.id, &s.3, SECRET, vec![(18, vec![b'r', i as u8])]);
                if i == 0 && odd == 1 {
                    resp[i][7] ^= 1;
                }
                if i == 0 && odd == 2 {
                    net().deliver_error(s.1, ErrorKind::ConnectionRefused, "refused");
                } else if !(i == 0 && odd == 3) {
                    net().deliver(*rem, s.1, &resp[i]);
                }
                if choose(2) == 1 {
                    mcrt::quiesce();
                }
            }
            mcrt::quiesce();
            mcrt::sleep(ms(3000));
            mcrt::quiesce();
            for (i, (c, _, _)) in calls.iter().enumerate() {
                let want = match (i, odd) {
                    (0, 1) => "decode",
                    (0, 2) => "receive",
                    (0, 3) => "socket timeout",
                    _ => "ok",
                };
                let d = || desc(i);
                let got = finish(c, &d).map(|x| x.0);
                if got != Some(want) {
                    report("result", || format!("{}: ended with {got:?} instead of {want}", desc(i)));
                }
                check_packet(c, &resp[i], SECRET, "result", &d);
            }
        },
    )
}

/// Timeouts.
fn timing(thorough: bool) -> Scenario {
    let tos: Vec<Option<u64>> = if thorough { vec![None, Some(1), Some(50), Some(100), Some(1000), Some(30_000)] } else { vec![None, Some(50), Some(100), Some(30_000)] };
    let delays: Vec<Option<u64>> = if thorough { vec![Some(0), Some(1), Some(20), Some(49), Some(51), Some(75), Some(99), Some(101), Some(160), Some(5000), None] } else { vec![Some(0), Some(20), Some(49), Some(51), Some(99), Some(101), None] };
    Scenario::new(
        "timing",
        "every combination of connection and socket timeout with times needed for binding, connecting, sending and answering (below, just below, just above, never)".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let tc = tos[choose(tos.len())];
            let ts = tos[choose(tos.len())];
            let bd = [0u64, 200][choose(2)];
            let dc = delays[choose(delays.len())];
            let ds = [Some(0), Some(30), None][choose(3)];
            let dr = delays[choose(delays.len())];
            // a datagram that is no response: it ends the call with the decoding error
            let junk = choose(2) == 1;
            let flt = |d: Option<u64>| match d {
                Some(0) => Fault::None,
                Some(n) => Fault::Delay(ms(n)),
                None => Fault::Never,
            };
            {
                let n = net();
                let mut g = n.s.lock().unwrap();
                g.bind.push_back(flt(Some(bd)));
                g.connect.push_back(flt(dc));
                g.send.push_back(flt(ds));
            }
            let desc = || format!("connection timeout {tc:?} ms, socket timeout {ts:?} ms; binding takes {bd}, connecting {dc:?}, sending {ds:?}, answering {dr:?} ms");
            // what has to happen, and when (ms)
            let mut t = bd;
            let want: (&str, Option<u64>) = 'w: {
                match (dc, tc) {
                    (None, None) => break 'w ("pending", None),
                    (None, Some(x)) => break 'w ("connection timeout", Some(t + x)),
                    (Some(d), Some(x)) if d > x => break 'w ("connection timeout", Some(t + x)),
                    (Some(d), Some(x)) if d == x => return,
                    (Some(d), _) => t += d,
                }
                let need = match (ds, dr) {
                    (Some(a), Some(b)) => Some(a + b),
                    _ => None,
                };
                match (need, ts) {
                    (None, None) => ("pending", None),
                    (None, Some(x)) => ("socket timeout", Some(t + x)),
                    (Some(d), Some(x)) if d > x => ("socket timeout", Some(t + x)),
                    (Some(d), Some(x)) if d == x => return,
                    (Some(d), _) => (if junk { "decode" } else { "ok" }, Some(t + d)),
                }
            };
            let rem = remote(false);
            let (p, _) = req(1, 1, 1, SECRET, vec![]);
            let client = Arc::new(Client::new(tc.map(ms), ts.map(ms)));
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let mut resp = vec![];
            // until the datagram is out
            let out_at = bd + dc.unwrap_or(0) + ds.unwrap_or(0);
            if dc.is_some() && ds.is_some() {
                if out_at > 0 {
                    mcrt::sleep(ms(out_at));
                    mcrt::quiesce();
                }
                let sent = net().sent();
                if sent.len() == 1 {
                    if let Some(d) = dr {
                        if d > 0 {
                            mcrt::sleep(ms(d));
                        }
                        resp = response(2, 1, &sent[0].3, SECRET, vec![]);
                        if junk {
                            resp[9] ^= 1;
                        }
                        net().deliver(rem, sent[0].1, &resp);
                        mcrt::quiesce();
                    }
                }
            }
            // a day later
            mcrt::sleep(ms(86_400_000));
            mcrt::quiesce();
            let got = finish(&k, &desc);
            match (want, got) {
                (("pending", _), None) => {}
                ((w, Some(at)), Some((g, t))) if w == g && t / 1_000_000 >= at && t / 1_000_000 <= at + 1 => {}
                _ => report("timing", || format!("{}: expected {want:?}, got {got:?} (ns)", desc())),
            }
            check_packet(&k, &resp, SECRET, "timing", &desc);
        },
    )
}

/// Timeouts do not depend on what is sent where, and nothing is sent twice.
fn timing_kinds(thorough: bool) -> Scenario {
    let mut remotes: Vec<SocketAddr> = ["127.0.0.1", "192.0.2.18", "10.255.255.255", "255.255.255.255", "224.0.0.1", "169.254.1.1"].iter().map(|a| sa(&format!("{a}:1812"))).collect();
    remotes.extend([1u16, 53, 1645, 1646, 1813, 2083, 3799, 49152, 65535].map(|p| sa(&format!("192.0.2.18:{p}"))));
    remotes.extend(["[::1]:1812", "[2001:db8::1]:1813", "[fe80::1]:1812", "[ff02::1]:1812", "[::ffff:10.0.0.1]:1812"].map(sa));
    let ids: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, 1, 127, 128, 255] };
    Scenario::new(
        "timing-kinds",
        format!("13 types x {} remotes (addresses, well-known ports) or x {} identifiers x 3 sizes or x secrets of several lengths; timeouts none, 100 ms or 3 s each; connecting slow or never; answered just before the timeout, after it, or never: when and how the call ends, one datagram in a whole day", remotes.len(), ids.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let c = model::SENDABLE[choose(13)];
            let (mut rem, mut id, mut attrs, mut secret) = (remote(false), 1u8, vec![(1, b"eve".to_vec())], SECRET.to_vec());
            match choose(3) {
                0 => rem = remotes[choose(remotes.len())],
                1 => {
                    id = ids[choose(ids.len())];
                    attrs = match choose(3) {
                        0 => vec![],
                        1 => (0..16).map(|i| (25, util::pattern(if i == 15 { 247 } else { 253 }, i))).chain([(1, vec![])]).collect(),
                        _ => vec![(79, util::pattern(100, 1)), (80, vec![0; 16]), (24, b"state".to_vec()), (55, vec![0, 0, 0, 9]), (41, vec![0, 0, 0, 5]), (27, vec![0, 0, 0, 1])],
                    };
                }
                _ => secret = util::pattern([1usize, 16, 64, 300][choose(4)], 5),
            }
            let (tc, ts) = ([None, Some(100u64)][choose(2)], [None, Some(100u64), Some(3000)][choose(3)]);
            let x = ts.unwrap_or(100_000);
            // connecting: at once, in time, not in time, never; answering likewise
            let dc = [Some(0u64), Some(99), Some(101), None][choose(4)];
            let dr = if dc.is_some_and(|d| tc.is_none_or(|t| d <= t)) { [Some(0u64), Some(x - 1), Some(x + 1), None][choose(4)] } else { None };
            match dc {
                Some(0) => {}
                Some(d) => net().s.lock().unwrap().connect.push_back(Fault::Delay(ms(d))),
                None => net().s.lock().unwrap().connect.push_back(Fault::Never),
            }
            let desc = || format!("type {c} identifier {id} to {rem}, connection timeout {tc:?} ms, socket timeout {ts:?} ms; connecting takes {dc:?}, answering {dr:?} ms");
            let want: (&str, Option<u64>) = match (dc, tc) {
                (None, None) => ("pending", None),
                (None, Some(t)) => ("connection timeout", Some(t)),
                (Some(d), Some(t)) if d > t => ("connection timeout", Some(t)),
                (Some(d), _) => match (dr, ts) {
                    (None, None) => ("pending", None),
                    (None, Some(t)) => ("socket timeout", Some(d + t)),
                    (Some(a), Some(t)) if a > t => ("socket timeout", Some(d + t)),
                    (Some(a), _) => ("ok", Some(d + a)),
                },
            };
            let (p, m) = req(c, id, 5, &secret, attrs);
            let wire = model::encode(&m, &secret).unwrap();
            let client = Arc::new(Client::new(tc.map(ms), ts.map(ms)));
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let mut resp = vec![];
            if let (Some(d), "ok" | "socket timeout") | (Some(d), "pending") = (dc, want.0) {
                if d > 0 {
                    mcrt::sleep(ms(d));
                    mcrt::quiesce();
                }
                let sent = net().sent();
                if sent.len() != 1 || sent[0].3 != wire || sent[0].2 != rem {
                    return report("sent", || format!("{}: {} datagrams sent after connecting", desc(), sent.len()));
                }
                if let Some(a) = dr {
                    if a > 0 {
                        mcrt::sleep(ms(a));
                        mcrt::quiesce();
                    }
                    resp = response(2, id, &wire, &secret, vec![(18, b"hi".to_vec())]);
                    net().deliver(rem, sent[0].1, &resp);
                    mcrt::quiesce();
                }
            }
            mcrt::sleep(ms(86_400_000));
            mcrt::quiesce();
            match (want, finish(&k, &desc)) {
                (("pending", _), None) => {}
                ((w, Some(at)), Some((g, t))) if w == g && t / 1_000_000 >= at && t / 1_000_000 <= at + 1 => {}
                (_, got) => report("timing", || format!("{}: expected {want:?} ms, got {got:?} (ns)", desc())),
            }
            let n = net().sent().len();
            let most = if want.0 == "connection timeout" || dc.is_none() { 0 } else { 1 };
            if n != most {
                report("sent", || format!("{}: {n} datagrams were sent", desc()));
            }
            check_packet(&k, &resp, &secret, "timing", &desc);
        },
    )
}

/// Timeouts of concurrent calls are their own.
fn timing_concurrent() -> Scenario {
    Scenario::new(
        "timing-concurrent",
        "two calls on one client started 0, 40 or 90 ms apart with a socket timeout of 100 ms, each answered after 0, 50, 99, 101 ms or never; at most 1 preemption".into(),
        Budget { preemptions: 1, selects: 0, ..Default::default() },
        move || {
            let gap = [0u64, 40, 90][choose(3)];
            let d: Vec<Option<u64>> = (0..2).map(|_| [Some(1u64), Some(50), Some(99), Some(101), None][choose(5)]).collect();
            let client = Arc::new(Client::new(Some(ms(70)), Some(ms(100))));
            let rem = remote(false);
            let mk = |i: u8| req(1, i, i as u64, SECRET, vec![]).0;
            let a = call(&client, rem, mk(0));
            if gap > 0 {
                mcrt::quiesce();
                mcrt::sleep(ms(gap));
            }
            let b = call(&client, rem, mk(1));
            mcrt::quiesce();
            mcrt::freeze();
            // deliver at the due times
            let mut due: Vec<(u64, u8)> = vec![];
            for (i, x) in d.iter().enumerate() {
                if let Some(x) = x {
                    due.push((if i == 0 { 0 } else { gap } + x, i as u8));
                }
            }
            due.sort();
            for (t, i) in due {
                let now = mcrt::now().unwrap() / 1_000_000;
                if t > now {
                    mcrt::sleep(ms(t - now));
                }
                mcrt::quiesce();
                let Some(s) = net().sent().into_iter().find(|s| s.3[1] == i) else { continue };
                net().deliver(rem, s.1, &response(2, i, &s.3, SECRET, vec![]));
            }
            mcrt::quiesce();
            mcrt::sleep(ms(10_000));
            mcrt::quiesce();
            for (i, c) in [a, b].iter().enumerate() {
                let start = if i == 0 { 0 } else { gap };
                // a response that was due before the gap was over is delivered late; skip
                let late = i == 0 && d[0].is_some_and(|x| x < gap);
                let desc = || format!("call {i} started at {start} ms, answered after {:?} ms, socket timeout 100 ms, the other {:?}", d[i], d[1 - i]);
                let want = match d[i] {
                    Some(x) if x < 100 => ("ok", start + if late { gap } else { x }),
                    _ => ("socket timeout", start + 100),
                };
                match finish(c, &desc) {
                    Some((g, t)) if g == want.0 && t / 1_000_000 >= want.1 && t / 1_000_000 <= want.1 + 1 => {}
                    got => report("timing", || format!("{}: expected {want:?}, got {got:?}", desc())),
                }
            }
        },
    )
}

/// What counts as a response.
fn responses(thorough: bool) -> Scenario {
    Scenario::new(
        "responses",
        "requests of all types x secrets x received datagrams: genuine responses of all types and sizes, every single bit flipped, other identifiers, secrets and authenticators, malformed, truncated and padded ones".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let c = model::SENDABLE[choose(13)];
            let secret: &[u8] = [SECRET, b"k", &[0u8, 0, 255, 1][..], b""][choose(4)];
            let rem = remote(false);
            let (p, m) = req(c, 200, 8 + c as u64, secret, vec![(1, b"carol".to_vec())]);
            let wire = model::encode(&m, secret).unwrap();
            let attrs = vec![(18, b"hi".to_vec()), (25, vec![0, 1]), (18, vec![])];
            let other = {
                let mut x = wire.clone();
                x[4] ^= 0x80;
                x
            };
            // (what, datagram, must it be accepted; None: either)
            let mut v: Vec<(String, Vec<u8>, Option<bool>)> = vec![];
            let yes = Some(!secret.is_empty());
            let no = Some(false);
            let g = response(2, 200, &wire, secret, attrs.clone());
            for rc in RESP {
                v.push((format!("genuine type {rc}"), response(rc, 200, &wire, secret, attrs.clone()), yes));
            }
            for rc in [1u8, 4, 12, 13, 40, 43, 255, 0, 99] {
                v.push((format!("type {rc} with a valid digest"), response(rc, 200, &wire, secret, attrs.clone()), if secret.is_empty() { no } else { None }));
            }
            v.push(("no attributes".into(), response(3, 200, &wire, secret, vec![]), yes));
            let bigs: Vec<model::Attr> = (0..16).map(|i| (25, util::pattern(if i == 15 { 249 } else { 253 }, i))).chain([(25, util::pattern(0, 1))]).collect();
            let max = response(2, 200, &wire, secret, bigs.clone());
            v.push((format!("{} octets", max.len()), max, if (20 + bigs.iter().map(|a| a.1.len() + 2).sum::<usize>()) <= 4096 { yes } else { no }));
            let over: Vec<model::Attr> = (0..17).map(|i| (25, util::pattern(253, i))).collect();
            v.push(("more than 4096 octets".into(), response(2, 200, &wire, secret, over), no));
            for n in [1usize, 17, 4096 - g.len(), 4097 - g.len(), 5000, 65507 - g.len()] {
                let mut x = g.clone();
                x.extend(vec![7; n]);
                v.push((format!("{n} octets of padding"), x, yes));
            }
            for n in [0usize, 1, 4, 19, 20, g.len() - 1] {
                v.push((format!("first {n} octets"), g[..n].to_vec(), no));
            }
            let flips: Vec<usize> = (0..g.len() * 8).filter(|b| thorough || *b < 32 || b % 3 == 0).collect();
            for b in flips {
                let mut x = g.clone();
                x[b / 8] ^= 1 << (b % 8);
                v.push((format!("bit {b} flipped"), x, no));
            }
            for id in [199u8, 201, 0, 255] {
                v.push((format!("identifier {id}"), response(2, id, &wire, secret, attrs.clone()), no));
            }
            v.push(("another secret".into(), response(2, 200, &wire, b"not the secret", attrs.clone()), no));
            v.push(("no secret in the digest".into(), response(2, 200, &wire, b"", attrs.clone()), no));
            v.push(("response to another request".into(), response(2, 200, &other, secret, attrs.clone()), no));
            let mut z = g.clone();
            sign(&mut z, &[0; 16], secret);
            v.push(("digest over zeros".into(), z, no));
            let mut z = g.clone();
            sign(&mut z, &m.auth, secret);
            // for types that carry their own authenticator this is the genuine one
            v.push(("digest over the packet's own authenticator".into(), z, if model::OWN_AUTH.contains(&c) { yes } else { no }));
            let mut z = g.clone();
            z[4..20].copy_from_slice(&wire[4..20]);
            v.push(("the request's authenticator".into(), z, no));
            v.push(("the request itself".into(), wire.clone(), no));
            v.push(("all zero".into(), vec![0; 40], no));
            for (what, tail) in [("attribute length 0", vec![1u8, 0]), ("attribute length 1", vec![1, 1]), ("attribute beyond the end", vec![1, 9, 5]), ("half an attribute", vec![1])] {
                let mut x = g[..20].to_vec();
                x.extend(tail);
                x[2] = 0;
                x[3] = x.len() as u8;
                sign(&mut x, &wire[4..20], secret);
                v.push((what.into(), x, no));
            }
            let (what, data, want) = v.swap_remove(choose(v.len()));
            let client = Arc::new(Client::new(None, Some(ms(1000))));
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let sent = net().sent();
            let desc = || format!("request type {c}, secret of {} octets, received: {what} ({})", secret.len(), crate::engine::hex(&data));
            if sent.len() != 1 || sent[0].3 != wire {
                return report("sent", || format!("{}: the request was not sent", desc()));
            }
            // a genuine response follows; it must not matter
            net().deliver(rem, sent[0].1, &data);
            if !what.starts_with("genuine") {
                net().deliver(rem, sent[0].1, &g);
            }
            mcrt::quiesce();
            let got = finish(&k, &desc).map(|x| x.0);
            match (want, got) {
                (Some(true), Some("ok")) | (Some(false), Some("decode")) | (None, Some("ok" | "decode")) => {}
                (w, g) => report(if w == Some(true) { "result" } else { "accept" }, || format!("{}: ended with {g:?}", desc())),
            }
            check_packet(&k, &data, secret, "accept", &desc);
            let guard = k.res.lock().unwrap();
            if let Some((Err(e), _)) = &*guard {
                let t = format!("{e} {e:?}");
                if crate::shows(&t, secret) {
                    report("secret", || format!("{}: the error shows the secret: {t}", desc()));
                }
            }
            drop(guard);
        },
    )
}

/// Unusual secrets, identifiers, authenticators and attributes.
fn odd() -> Scenario {
    let (secrets, auths) = (Arc::new(util::odd_secrets()), Arc::new(util::odd_auths()));
    Scenario::new(
        "odd",
        format!("{} secrets (every octet value alone, repeated, first, in the middle and last), all identifiers, {} request authenticators (one octet value, runs of zero octets), attributes of all numbers and 7 lengths in the request or the response x responses genuine or for a neighbouring secret, identifier or authenticator", secrets.len(), auths.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let rem = remote(false);
            let (mut c, mut id, mut secret, mut auth) = (1u8, 17u8, SECRET.to_vec(), util::auth16(3));
            let how;
            // the secret, identifier and authenticator of the response
            let (mut s2, mut id2, mut auth2) = (secret.clone(), None, None);
            let mut attrs = (vec![(1u8, b"dora".to_vec())], vec![(18u8, b"hi".to_vec())]);
            match choose(4) {
                3 => {
                    c = [1u8, 4, 12][choose(3)];
                    let a = (choose(256) as u8, util::pattern([0usize, 1, 4, 6, 16, 18, 253][choose(7)], 5));
                    how = choose(3);
                    match how {
                        0 => attrs.0.push(a),
                        1 => attrs.1 = vec![a],
                        _ => {
                            attrs.1.insert(0, a.clone());
                            attrs.1.push(a);
                        }
                    }
                }
                0 => {
                    secret = secrets[choose(secrets.len())].clone();
                    c = [1u8, 4][choose(2)];
                    how = choose(4);
                    s2 = match how {
                        0 => secret.clone(),
                        1 => secret[..secret.len() - 1].to_vec(),
                        2 => [&secret[..], &[0]].concat(),
                        _ => secret[1..].to_vec(),
                    };
                }
                1 => {
                    id = choose(256) as u8;
                    c = [1u8, 4, 12, 40, 43][choose(5)];
                    how = choose(5);
                    id2 = Some([id, id ^ 1, id ^ 0x80, 0, 255][how]);
                }
                _ => {
                    auth = auths[choose(auths.len())];
                    c = [1u8, 12][choose(2)];
                    how = choose(4);
                    let mut a = auth;
                    match how {
                        1 => a[0] ^= 1,
                        2 => a[15] ^= 1,
                        3 => a = util::auth16(99),
                        _ => {}
                    }
                    auth2 = Some(a);
                }
            }
            let m = MPacket { code: c, id, auth, attrs: attrs.0 };
            let p = util::build(&m, &secret);
            let wire = model::encode(&m, &secret).unwrap();
            let client = Arc::new(Client::new(None, Some(ms(1000))));
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let sent = net().sent();
            let desc = || format!("request type {c} identifier {id} secret {} authenticator {}, response variant {how}", crate::engine::hex(&secret), crate::engine::hex(&auth));
            if sent.len() != 1 || sent[0].3 != wire {
                return report("sent", || format!("{}: the request was not sent", desc()));
            }
            let id2 = id2.unwrap_or(id);
            let mut seen = wire.clone();
            if let Some(a) = auth2 {
                seen[4..20].copy_from_slice(&a);
            }
            let data = response(2, id2, &seen, &s2, attrs.1);
            let good = id2 == id && s2 == secret && seen == wire;
            net().deliver(rem, sent[0].1, &data);
            mcrt::quiesce();
            match (good, finish(&k, &desc).map(|x| x.0)) {
                (true, Some("ok")) | (false, Some("decode")) => {}
                (w, g) => report(if w { "result" } else { "accept" }, || format!("{}: ended with {g:?}", desc())),
            }
            check_packet(&k, &data, &secret, "accept", &desc);
        },
    )
}

/// Where requests go.
fn addresses() -> Scenario {
    use std::net::SocketAddrV6;
    let mut v: Vec<SocketAddr> = vec![];
    for port in [1u16, 255, 256, 1812, 3799, 65535] {
        for ip in ["127.0.0.1", "127.1.2.3", "10.0.0.1", "192.168.255.254", "172.16.0.9", "169.254.7.7", "100.64.0.1", "8.8.8.8", "255.255.255.255", "224.0.0.1", "1.0.0.0", "[::1]", "[::ffff:192.0.2.1]", "[::192.0.2.1]", "[fe80::1]", "[fd00::5]", "[2001:db8::8:800:200c:417a]", "[ff02::1]", "[64:ff9b::192.0.2.33]"] {
            v.push(sa(&format!("{ip}:{port}")));
        }
        for scope in [1, 7, u32::MAX] {
            v.push(SocketAddr::V6(SocketAddrV6::new("fe80::1:2".parse().unwrap(), port, 0, scope)));
        }
        v.push(SocketAddr::V6(SocketAddrV6::new("2001:db8::1".parse().unwrap(), port, 5, 0)));
    }
    Scenario::new(
        "addresses",
        format!("{} remotes: loopback, private, link-local (with interfaces), public, multicast, mapped addresses of both families x ports; 2 request types", v.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let rem = v[choose(v.len())];
            let code = [1u8, 4][choose(2)];
            let (p, m) = req(code, 5, 1, SECRET, vec![(1, b"erin".to_vec())]);
            let client = Arc::new(Client::new(Some(ms(1000)), Some(ms(1000))));
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let desc = || format!("a call to {rem:?}");
            let ops = net().ops();
            let binds: Vec<_> = ops.iter().filter_map(|o| if let Op::Bind { asked, .. } = o { Some(*asked) } else { None }).collect();
            if binds.len() != 1 || binds[0].is_ipv4() != rem.is_ipv4() || binds[0].port() != 0 {
                report("socket", || format!("{}: bound {binds:?}", desc()));
            }
            let conns: Vec<_> = ops.iter().filter_map(|o| if let Op::Connect { to, .. } = o { Some(*to) } else { None }).collect();
            if conns != [rem] {
                report("socket", || format!("{}: connected to {conns:?}", desc()));
            }
            let sent = net().sent();
            if sent.len() != 1 || sent[0].2 != rem || Some(&sent[0].3) != model::encode(&m, SECRET).as_ref() {
                return report("sent", || format!("{}: sent {sent:?}", desc()));
            }
            let resp = response(2, 5, &sent[0].3, SECRET, vec![(18, b"hello".to_vec())]);
            net().deliver(rem, sent[0].1, &resp);
            mcrt::quiesce();
            if finish(&k, &desc).map(|x| x.0) != Some("ok") {
                report("result", || format!("{}: {:?}", desc(), finish(&k, &desc)));
            }
            check_packet(&k, &resp, SECRET, "result", &desc);
        },
    )
}

/// Each step failing with each kind of error.
fn errors() -> Scenario {
    use ErrorKind::*;
    const KINDS: [ErrorKind; 14] = [ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, TimedOut, InvalidInput, InvalidData, OutOfMemory, PermissionDenied, NotFound, UnexpectedEof];
    Scenario::new(
        "errors",
        "each of binding, connecting, sending and receiving failing with each of 14 kinds of errors x timeouts set or not x IPv4/IPv6; what would save the call follows; then another call".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let step = choose(4);
            let kind = KINDS[choose(KINDS.len())];
            let to = [(None, None), (Some(ms(60_000)), None), (None, Some(ms(60_000))), (Some(ms(60_000)), Some(ms(60_000)))][choose(4)];
            let v6 = choose(2) == 1;
            {
                let n = net();
                let mut g = n.s.lock().unwrap();
                let f = Fault::Err(kind, "it failed");
                match step {
                    0 => g.bind.push_back(f),
                    1 => g.connect.push_back(f),
                    2 => g.send.push_back(f),
                    _ => g.recv.push_back(f),
                }
            }
            let rem = remote(v6);
            let (p, _) = req(1, 5, 1, SECRET, vec![]);
            let client = Arc::new(Client::new(to.0, to.1));
            let k = call(&client, rem, p.clone());
            let want = ["bind", "connect", "send", "receive"][step];
            let desc = || format!("{want} fails with {kind:?}, timeouts {to:?}, to {rem}");
            mcrt::quiesce();
            for s in net().sent() {
                net().deliver(rem, s.1, &response(2, 5, &s.3, SECRET, vec![]));
            }
            mcrt::quiesce();
            let n = net().sent().len();
            if n != (step == 3) as usize {
                report("sent", || format!("{}: {n} datagrams were sent", desc()));
            }
            if finish(&k, &desc).map(|x| x.0) != Some(want) {
                report("result", || format!("{}: ended with {:?}", desc(), finish(&k, &desc)));
            }
            // another call is not affected
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let sent = net().sent();
            if sent.len() != n + 1 {
                return report("sent", || format!("{}, then another call: {} datagrams were sent", desc(), sent.len() - n));
            }
            let resp = response(3, 5, &sent[n].3, SECRET, vec![]);
            net().deliver(rem, sent[n].1, &resp);
            mcrt::quiesce();
            if finish(&k, &desc).map(|x| x.0) != Some("ok") {
                report("result", || format!("{}, then another call: {:?}", desc(), finish(&k, &desc)));
            }
            check_packet(&k, &resp, SECRET, "result", &desc);
        },
    )
}

/// Calls one after the other on one client.
fn sequence(n: usize) -> Scenario {
    const WHAT: [&str; 11] = ["ok", "socket timeout", "connection timeout", "decode", "receive", "bind", "connect", "encode", "send", "abandoned", "ok after a while"];
    Scenario::new(
        "sequence",
        format!("every sequence of {n} calls on one client out of {} kinds: successful at once or later, each timeout (and the response comes late), forged response, each step failing, abandoned; with the same packet or new ones", WHAT.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let same_packet = choose(2) == 1;
            let client = Arc::new(Client::new(Some(ms(300)), Some(ms(1000))));
            let rem = remote(false);
            let mut ports: Vec<u16> = vec![];
            let mut late: Vec<(SocketAddr, Vec<u8>)> = vec![];
            let mut hist: Vec<&str> = vec![];
            for i in 0..n {
                let w = choose(WHAT.len());
                hist.push(WHAT[w]);
                let desc = || format!("calls {hist:?} on one client, the last one");
                let x = if same_packet { 0 } else { i };
                let (mut p, m) = req(1, 9, 100 + x as u64, SECRET, vec![(1, vec![b'u', x as u8])]);
                if w == 7 {
                    p.add(AVP::from_bytes(25, &util::pattern(254, 1)));
                }
                {
                    let k = net();
                    let mut g = k.s.lock().unwrap();
                    let e = Fault::Err(ErrorKind::Other, "it failed");
                    g.bind.clear();
                    g.connect.clear();
                    g.send.clear();
                    g.recv.clear();
                    match w {
                        2 => g.connect.push_back(Fault::Never),
                        4 => g.recv.push_back(e),
                        5 => g.bind.push_back(e),
                        6 => g.connect.push_back(e),
                        8 => g.send.push_back(e),
                        _ => {}
                    }
                }
                let before = net().sent().len();
                let start = mcrt::now().unwrap();
                let k = call(&client, rem, p);
                mcrt::quiesce();
                let sent = net().sent();
                let goes_out = [0, 1, 3, 4, 9, 10].contains(&w);
                if sent.len() - before != goes_out as usize {
                    return report("sent", || format!("{} sent {} datagrams", desc(), sent.len() - before));
                }
                // responses to earlier calls
                for (to, d) in &late {
                    net().deliver(rem, *to, d);
                }
                let mut resp = vec![];
                if goes_out {
                    let s = &sent[before];
                    if Some(&s.3) != model::encode(&m, SECRET).as_ref() || s.2 != rem {
                        return report("sent", || format!("{} sent {} to {}", desc(), crate::engine::hex(&s.3), s.2));
                    }
                    if ports.contains(&s.1.port()) {
                        return report("socket", || format!("{} does not use a socket of its own", desc()));
                    }
                    ports.push(s.1.port());
                    resp = response(2, 9, &s.3, SECRET, vec![(18, vec![i as u8])]);
                    late.push((s.1, resp.clone()));
                    if w == 10 {
                        mcrt::sleep(ms(900));
                        mcrt::quiesce();
                    }
                    if w == 0 || w == 10 {
                        net().deliver(rem, s.1, &resp);
                    } else if w == 3 {
                        let mut f = resp.clone();
                        f[12] ^= 4;
                        net().deliver(rem, s.1, &f);
                    } else if w == 9 {
                        let h = k.abort.lock().unwrap().take().unwrap();
                        h.abort();
                        mcrt::quiesce();
                        continue;
                    }
                    mcrt::quiesce();
                }
                let at = [0u64, 1000, 300, 0, 0, 0, 0, 0, 0, 0, 900][w];
                if w == 1 || w == 2 {
                    mcrt::sleep(ms(5000));
                    mcrt::quiesce();
                }
                match finish(&k, &desc) {
                    Some((g, t)) if WHAT[w].starts_with(g) => {
                        let t = (t - start) / 1_000_000;
                        if t < at || t > at + 1 {
                            report("timing", || format!("{} ended after {t} ms instead of {at}", desc()));
                        }
                    }
                    g => report("result", || format!("{} ended with {g:?}", desc())),
                }
                check_packet(&k, &resp, SECRET, "result", &desc);
            }
        },
    )
}

/// A client that lives long: counters must not wrap, nothing may pile up.
fn long_run(t: bool) -> Scenario {
    let n: usize = if t { 20_000 } else { 1500 };
    Scenario::new(
        "long-run",
        format!("{n} calls one after another on one client, answered, timed out, refused or abandoned in turn; same packet or new ones"),
        Budget { preemptions: 0, switches: 0, selects: 0, steps: 50_000_000 },
        move || {
            let period = choose(4);
            let same = choose(2) == 1;
            let client = Arc::new(Client::new(Some(ms(300)), Some(ms(1000))));
            let rem = remote(false);
            let mut last: Option<(SocketAddr, Vec<u8>)> = None;
            for i in 0..n {
                let desc = || format!("call {i} on one client");
                let id = if same { 9 } else { i as u8 };
                let (p, m) = req([1, 4, 12, 40, 43][i % 5], id, if same { 1 } else { i as u64 }, SECRET, vec![]);
                let before = net().ops_len();
                let k = call(&client, rem, p);
                mcrt::quiesce();
                let s = net().sent_after(before);
                if s.len() != 1 {
                    return report("sent", || format!("{} sent {} datagrams", desc(), s.len()));
                }
                let s = &s[0];
                if Some(&s.2) != model::encode(&m, SECRET).as_ref() || s.1 != rem {
                    return report("sent", || format!("{} sent {}", desc(), crate::engine::hex(&s.2)));
                }
                if let Some((to, d)) = &last {
                    net().deliver(rem, *to, d);
                }
                let (sock, resp) = (s.0, response(2, id, &s.2, SECRET, vec![(18, vec![i as u8])]));
                let what = if period > 0 && i % (period + 1) == period { 1 + i / (period + 1) % 3 } else { 0 };
                let want = match what {
                    1 => {
                        mcrt::sleep(ms(1000));
                        "socket timeout"
                    }
                    2 => {
                        let mut f = resp.clone();
                        f[5] ^= 1;
                        net().deliver(rem, sock, &f);
                        "decode"
                    }
                    3 => {
                        let h = k.abort.lock().unwrap().take().unwrap();
                        h.abort();
                        mcrt::quiesce();
                        last = Some((sock, resp));
                        continue;
                    }
                    _ => {
                        net().deliver(rem, sock, &resp);
                        "ok"
                    }
                };
                mcrt::quiesce();
                match finish(&k, &desc) {
                    Some((g, _)) if g == want => {}
                    g => return report("result", || format!("{} ended with {g:?} instead of {want}", desc())),
                }
                if want == "ok" {
                    check_packet(&k, &resp, SECRET, "result", &desc);
                }
                last = Some((sock, resp));
            }
        },
    )
}

/// Many calls at once, on one client.
fn many(t: bool) -> Scenario {
    let sizes: &'static [usize] = if t { &[5, 9, 17, 33, 65, 129, 257, 300, 600, 1030] } else { &[5, 17, 65, 300] };
    Scenario::new(
        "many",
        format!("5 to {} calls at once on one client, answered in order, in reverse order or only the last ones", sizes.last().unwrap()),
        Budget { preemptions: 0, switches: 0, selects: 0, steps: 5_000_000 },
        move || {
            let n = sizes[choose(sizes.len())];
            let order = choose(3);
            let same_id = choose(2) == 1;
            let client = Arc::new(Client::new(Some(ms(300)), Some(ms(1000))));
            let rem = remote(false);
            let id = |i: usize| if same_id { 7 } else { i as u8 };
            let calls: Vec<_> = (0..n)
                .map(|i| {
                    let (p, m) = req(1, id(i), i as u64, SECRET, vec![(1, (i as u16).to_be_bytes().to_vec())]);
                    (call(&client, rem, p), model::encode(&m, SECRET).unwrap())
                })
                .collect();
            mcrt::quiesce();
            let sent = net().sent();
            if sent.len() != n {
                return report("sent", || format!("{n} calls sent {} datagrams", sent.len()));
            }
            let mut socks: Vec<Option<SocketAddr>> = vec![None; n];
            for s in &sent {
                match calls.iter().position(|c| c.1 == s.3) {
                    Some(i) if socks[i].is_none() => socks[i] = Some(s.1),
                    _ => return report("sent", || format!("{} was sent twice, or by no call", crate::engine::hex(&s.3))),
                }
            }
            let answered: Vec<usize> = match order {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                _ => (n / 2..n).collect(),
            };
            let resp = |i: usize| response(2, id(i), &calls[i].1, SECRET, vec![(18, (i as u16).to_be_bytes().to_vec())]);
            for i in &answered {
                net().deliver(rem, socks[*i].unwrap(), &resp(*i));
            }
            mcrt::quiesce();
            mcrt::sleep(ms(1000));
            mcrt::quiesce();
            for i in 0..n {
                let desc = || format!("call {i} of {n} at once");
                let want = if answered.contains(&i) { ("ok", 0) } else { ("socket timeout", 1000) };
                match finish(&calls[i].0, &desc) {
                    Some((g, at)) if g == want.0 && at / 1_000_000 == want.1 => {}
                    g => report("result", || format!("{} ended with {g:?} instead of {want:?}", desc())),
                }
                if want.0 == "ok" {
                    check_packet(&calls[i].0, &resp(i), SECRET, "result", &desc);
                }
            }
        },
    )
}

/// Very short and very long timeouts.
fn extremes() -> Scenario {
    const NS: [u128; 21] = [0, 1, 1_000, 999_999, 1_000_000, 1_000_001, 1_500_000, 2_000_000, 999_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_001_000_000, 59_999_000_000, 60_000_000_000, 65_535_000_000, 65_536_000_000, 3_600_000_000_000, 4_294_967_295_000_000, 4_294_967_297_000_000, u128::MAX];
    let dur = |n: u128| if n == u128::MAX { Duration::MAX } else { Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32) };
    Scenario::new(
        "extremes",
        format!("{} timeouts from 0 over fractions of milliseconds to the longest duration, as connection and as socket timeout, with nothing happening or with the step done a little before the end or long after a shorter one", NS.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let n = NS[choose(NS.len())];
            let conn = choose(2) == 1;
            let both = choose(2) == 1;
            // 0: never, 1: in time
            let when = choose(2);
            let d = dur(n);
            // one hundred days from the start of the call are simulated
            const END: u64 = 100 * 86_400_000;
            let n_ms = n.div_ceil(1_000_000).min(u64::MAX as u128) as u64;
            let delay = match when {
                0 => None,
                _ if n_ms < 3 => return,
                _ => Some((n_ms - 2).min(END - 1000)),
            };
            {
                let k = net();
                let mut g = k.s.lock().unwrap();
                if conn {
                    g.connect.push_back(match delay {
                        None => Fault::Never,
                        Some(x) => Fault::Delay(ms(x)),
                    });
                }
            }
            let other = if both { Some(Duration::MAX) } else { None };
            let client = Arc::new(if conn { Client::new(Some(d), other) } else { Client::new(other, Some(d)) });
            let rem = remote(true);
            let (p, _) = req(1, 5, 1, SECRET, vec![]);
            let k = call(&client, rem, p);
            mcrt::quiesce();
            let desc = || format!("{} timeout of {d:?}, the other {other:?}, {}", if conn { "connection" } else { "socket" }, delay.map_or("nothing happens".into(), |x| format!("done after {x} ms")));
            let mut resp = vec![];
            if let Some(x) = delay {
                mcrt::sleep(ms(x));
                mcrt::quiesce();
                match net().sent().first() {
                    Some(s) => {
                        resp = response(2, 5, &s.3, SECRET, vec![]);
                        net().deliver(rem, s.1, &resp);
                    }
                    None => return report("timing", || format!("{}: nothing was sent; {:?}", desc(), finish(&k, &desc))),
                }
                mcrt::quiesce();
            }
            mcrt::sleep(ms(END));
            mcrt::quiesce();
            let want = match delay {
                Some(x) => Some(("ok", x)),
                None if n_ms > END => None,
                None => Some((if conn { "connection timeout" } else { "socket timeout" }, n_ms)),
            };
            match (want, finish(&k, &desc)) {
                (None, None) => {}
                (Some((w, at)), Some((g, t))) if w == g && t / 1_000_000 <= at + 1 && t as u128 >= (at as u128 * 1_000_000).min(n) => {}
                (w, g) => report("timing", || format!("{}: expected {w:?} (ms), got {g:?} (ns)", desc())),
            }
            check_packet(&k, &resp, SECRET, "timing", &desc);
        },
    )
}

pub fn scenarios(prop: &str, t: bool) -> Vec<Scenario> {
    match prop {
        "C25" => vec![steps(t), timing_kinds(t), strangers(), addresses(), errors(), long_run(t), many(t), sequence(if t { 5 } else { 4 }), concurrent(2, if t { 3 } else { 2 }), concurrent(3, if t { 2 } else { 1 })],
        "C26" => vec![long_run(t), many(t), timing(t), timing_kinds(t), timing_concurrent(), sequence(if t { 5 } else { 4 }), extremes()],
        "C27" => vec![responses(t), odd(), long_run(t)],
        "C18" => vec![responses(false)],
        _ => vec![],
    }
}
pub fn tags(prop: &str) -> &'static [&'static str] {
    match prop {
        "C25" => &["sent", "result", "socket", "panic"],
        "C26" => &["timing", "result", "panic"],
        "C27" => &["accept", "result", "sent", "panic"],
        "C18" => &["secret"],
        _ => &[],
    }
}
