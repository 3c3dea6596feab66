//! Scenarios of the server.
use crate::model::{self, MPacket};
use crate::util;
use crate::world::*;
use crate::Scenario;
use mcrt::{choose, Budget};
use mctokio::net::net;
use std::net::SocketAddr;
use std::time::Duration;

pub fn sa(s: &str) -> SocketAddr {
    s.parse().unwrap()
}
/// client endpoints: another port of the same host, another host, and so on
fn client(i: usize) -> SocketAddr {
    sa(["10.0.0.1:5000", "10.0.0.1:5001", "10.0.0.2:5000", "10.0.0.2:5001", "10.0.0.15:5000", "10.0.0.1:500"][i])
}
/// (address, identifier); 0 and the first of each pair are the ones mixed up most easily
fn key(i: usize) -> (SocketAddr, u8) {
    match i {
        0 => (client(0), 7),
        1 => (client(0), 8),
        2 => (client(1), 7),
        3 => (client(2), 7),
        4 => (client(3), 8),
        5 => (client(4), 7),
        _ => (client(5), 7),
    }
}
fn client6(i: usize) -> SocketAddr {
    sa(["[2001:db8::1]:5000", "[2001:db8::1]:5001", "[2001:db8::2]:5000"][i])
}

const ENDS: [End; 3] = [End::Ok, End::Err, End::Panic];

/// the server still serves: one plain request from a client of its own
fn probe(sim: &Sim, n: u8, v6: bool) {
    let from = if v6 { sa("[2001:db8::ffff]:999") } else { sa("192.0.2.99:999") };
    sim.w.s.lock().unwrap().secrets.push((from, Sec::Is(SECRET.to_vec())));
    let skip = sim.w.s.lock().unwrap().skip;
    let _ = skip;
    sim.send(from, &request(1, n, SECRET, 250), NOW, "probe");
    sim.quiet();
    sim.check_running();
}

fn end_all(sim: &Sim) {
    for k in sim.in_progress() {
        let e = {
            let d = sim.w.s.lock().unwrap().dgs[k].clone();
            let b = *d.beh.lock().unwrap();
            b.end
        };
        sim.open(k, e);
    }
    sim.quiet();
    for k in sim.in_progress() {
        let d = sim.w.s.lock().unwrap().dgs[k].clone();
        if !d.beh.lock().unwrap().hold || d.gate.is_set() {
            report("blocked", || format!("the handler of datagram {k} does not go on"));
        }
    }
}

/// The datagrams of the admission scenarios: (what, octets).
fn variants(secret: &[u8], thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let other: &[u8] = b"another-secret";
    let mk = |c: u8, attrs: Vec<model::Attr>, s: &[u8]| -> Vec<u8> {
        let m = MPacket { code: c, id: 33, auth: util::auth16(c as u64 + 3), attrs };
        model::encode(&m, s).unwrap_or_else(|| {
            // types that may not be sent: encoded as an Access-Request, then relabelled
            let mut b = model::encode(&MPacket { code: 1, ..m.clone() }, s).unwrap();
            b[0] = c;
            b
        })
    };
    let mut codes: Vec<u8> = model::REGISTERED.to_vec();
    codes.extend([0, 6, 14, 39, 46, 50, 254]);
    if thorough {
        codes = (0..=255).collect();
    }
    for c in codes {
        let a = vec![(1, b"bob".to_vec())];
        v.push((format!("code {c}, genuine"), mk(c, a.clone(), secret)));
        v.push((format!("code {c}, digest of another secret"), mk(c, a.clone(), other)));
        let mut z = mk(c, a.clone(), secret);
        z[4..20].fill(0);
        v.push((format!("code {c}, zero authenticator"), z));
        v.push((format!("code {c}, no attributes"), mk(c, vec![], secret)));
        // response-style digest over the packet's own authenticator
        let mut r = mk(c, a, secret);
        let d = model::md5(&[&r[..4], &r[4..20].to_vec(), &r[20..], secret]);
        r[4..20].copy_from_slice(&d);
        v.push((format!("code {c}, digest over its own authenticator"), r));
    }
    for c in [1u8, 4, 12, 40, 43] {
        let g = mk(c, vec![(1, b"bob".to_vec()), (2, util::pattern(16, 9)), (31, b"x".to_vec())], secret);
        let flips: Vec<usize> = if thorough { (4..g.len() * 8).collect() } else { (32..g.len() * 8).step_by(5).collect() };
        for b in flips {
            let mut x = g.clone();
            x[b / 8] ^= 1 << (b % 8);
            v.push((format!("code {c}, bit {b} flipped"), x));
        }
        for n in [0usize, 1, 3, 4, 10, 19, 20, 21, g.len() - 1] {
            v.push((format!("code {c}, first {n} octets"), g[..n].to_vec()));
        }
        for n in [1usize, 2, 7, 16, 200] {
            let mut x = g.clone();
            x.extend(vec![0; n]);
            v.push((format!("code {c}, {n} octets of padding"), x));
            let mut x = g.clone();
            x.extend(vec![0xaa; n]);
            v.push((format!("code {c}, {n} octets of other padding"), x));
        }
        for d in [-1i32, 1, 2, -24, 300] {
            let mut x = g.clone();
            let l = (x.len() as i32 + d).max(0) as u16;
            x[2..4].copy_from_slice(&l.to_be_bytes());
            v.push((format!("code {c}, length field off by {d}"), x));
        }
        for l in [0u16, 19, 4097, 65535] {
            let mut x = g.clone();
            x[2..4].copy_from_slice(&l.to_be_bytes());
            v.push((format!("code {c}, length field {l}"), x));
        }
        // genuine digests over a malformed attribute section
        for (what, tail) in [("attribute length 0", vec![1u8, 0]), ("attribute length 1", vec![1, 1, 5]), ("attribute beyond the end", vec![1, 9, 5]), ("half an attribute", vec![1]), ("only types", vec![4, 2, 4, 2])] {
            let mut x = g[..20].to_vec();
            x.extend(tail);
            let l = x.len() as u16;
            x[2..4].copy_from_slice(&l.to_be_bytes());
            if model::ZERO_REQ.contains(&c) {
                let d = model::md5(&[&x[..4], &[0; 16], &x[20..], secret]);
                x[4..20].copy_from_slice(&d);
            }
            v.push((format!("code {c}, {what}"), x));
        }
    }
    v
}

/// All datagram variants x providers x switch x sender, one at a time.
fn admission(thorough: bool) -> Scenario {
    let vs = variants(SECRET, thorough);
    let n = vs.len();
    Scenario::new(
        "admission",
        format!("{n} datagram variants (types, digests, bit flips, lengths, malformed attributes) x 6 behaviours of the secret provider x validation switch x IPv4/IPv6, then a probe"),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let (what, data) = &vs[choose(vs.len())];
            let skip = [None, Some(false), Some(true)][choose(3)];
            let sec = match choose(6) {
                0 => Sec::Is(SECRET.to_vec()),
                1 => Sec::Is(b"some other secret".to_vec()),
                2 => Sec::Is(vec![]),
                3 => Sec::Fetch,
                4 => Sec::Generic,
                _ => Sec::Panic,
            };
            let v6 = choose(2) == 1;
            let sim = Sim::start(Cfg { v6, skip, ..Default::default() });
            let from = if v6 { client6(0) } else { client(0) };
            sim.w.s.lock().unwrap().secrets.push((from, sec));
            sim.send(from, data, NOW, what);
            sim.quiet();
            sim.check_running();
            probe(&sim, 33, v6);
        },
    )
}

/// Senders with unusual addresses.
fn senders() -> Scenario {
    use std::net::{Ipv6Addr, SocketAddrV6};
    let mut v: Vec<SocketAddr> = ["127.0.0.1", "10.0.0.1", "0.0.0.0", "255.255.255.255", "224.0.0.1", "169.254.1.1", "100.64.0.1", "10.0.0.0", "10.0.0.255"]
        .iter()
        .flat_map(|a| [1u16, 53, 1812, 1813, 65535].map(|p| sa(&format!("{a}:{p}"))))
        .collect();
    for a in ["::", "::1", "::10.0.0.1", "::ffff:10.0.0.1", "::ffff:127.0.0.1", "64:ff9b::10.0.0.1", "2002:a00:1::", "fe80::1", "fec0::1", "fd00::1", "ff02::1", "2001:db8::1"] {
        let a: Ipv6Addr = a.parse().unwrap();
        for (p, flow, scope) in [(1, 0, 0), (1812, 0, 0), (5000, 0, 0), (65535, 0, 0), (5000, 0, 1), (5000, 0, 2), (5000, 0, u32::MAX), (5000, 7, 0), (5000, 0xfffff, 1)] {
            v.push(SocketAddrV6::new(a, p, flow, scope).into());
        }
    }
    let n = v.len();
    Scenario::new(
        "senders",
        format!("{n} senders with special addresses (mapped, translated, link-local with a scope, flow labels, multicast, unspecified, low and high ports) x its own secret, another one's or none x validation switch x digest genuine or not"),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let from = v[choose(v.len())];
            let what = choose(3);
            let skip = choose(2) == 1;
            let good = choose(2) == 0;
            let own = format!("secret of {from}").into_bytes();
            let sim = Sim::start(Cfg { v6: from.is_ipv6(), skip: Some(skip), default_secret: if what == 0 { Sec::Fetch } else { Sec::Is(SECRET.to_vec()) }, ..Default::default() });
            if what < 2 {
                sim.w.s.lock().unwrap().secrets.push((from, Sec::Is(own.clone())));
            }
            let secret = if what < 2 { &own[..] } else { SECRET };
            let mut d = request(4, 9, secret, 1);
            if !good {
                d[4] ^= 1;
            }
            sim.send(from, &d, NOW, "from there");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// Requests of every type, with every identifier, with attributes of every number and with unusual authenticators.
fn contents() -> Scenario {
    let auths = util::odd_auths();
    Scenario::new(
        "contents",
        format!("all 256 packet types; 5 request types x all identifiers; all 256 attribute numbers x 7 value lengths x 3 request types x alone, twice or among others; {} authenticators (one octet value, runs of zero octets) of Access-Request and Status-Server x validation switch", auths.len()),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let skip = choose(2) == 1;
            let mut m = MPacket { code: 1, id: 33, auth: util::auth16(3), attrs: vec![(1, b"bob".to_vec())] };
            match choose(4) {
                0 => m.code = choose(256) as u8,
                1 => {
                    m.code = [1u8, 4, 12, 40, 43][choose(5)];
                    m.id = choose(256) as u8;
                }
                2 => {
                    m.code = [1u8, 4, 12][choose(3)];
                    let a = (choose(256) as u8, util::pattern([0usize, 1, 4, 6, 16, 18, 253][choose(7)], 5));
                    m.attrs = match choose(3) {
                        0 => vec![a],
                        1 => vec![a.clone(), a],
                        _ => vec![(1, b"bob".to_vec()), a, (31, b"x".to_vec())],
                    };
                }
                _ => {
                    m.code = [1u8, 12][choose(2)];
                    m.auth = auths[choose(auths.len())];
                }
            }
            let d = model::encode(&m, SECRET).unwrap_or_else(|| {
                let mut b = model::encode(&MPacket { code: 1, ..m.clone() }, SECRET).unwrap();
                b[0] = m.code;
                b
            });
            let sim = Sim::start(Cfg { skip: Some(skip), default_secret: Sec::Is(SECRET.to_vec()), ..Default::default() });
            sim.send(client(0), &d, NOW, "contents");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// Secrets of unusual octets: the provider's secret is used exactly as it is.
fn odd_secrets() -> Scenario {
    let v = util::odd_secrets();
    let n = v.len();
    Scenario::new(
        "odd-secrets",
        format!("{n} secrets (every octet value alone, repeated, first, in the middle and last) x request authentic under it, under it without its first or last octet, with a NUL or a line end after it, in another case x type"),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let s = &v[choose(v.len())];
            let code = [4u8, 1][choose(2)];
            let under = match choose(if code == 1 { 1 } else { 6 }) {
                0 => s.clone(),
                1 => s[1..].to_vec(),
                2 => s[..s.len() - 1].to_vec(),
                3 => [&s[..], &[0]].concat(),
                4 => [&s[..], b"\n"].concat(),
                _ => s.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect(),
            };
            let sim = Sim::start(Cfg { default_secret: Sec::Is(s.clone()), ..Default::default() });
            sim.send(client(0), &request(code, 9, &under, 1), NOW, "under that secret");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// Every pair of datagram variants from two clients (or one), not waiting in between.
fn pairs(thorough: bool) -> Scenario {
    let all = variants(SECRET, false);
    let step = if thorough { 3 } else { 11 };
    let vs: Vec<_> = all.into_iter().step_by(step).collect();
    let n = vs.len();
    Scenario::new(
        "pairs",
        format!("every ordered pair of {n} datagram variants from one client or two with different secrets, queued together"),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let a = choose(vs.len());
            let b = choose(vs.len());
            let two = choose(3);
            let sim = Sim::start(Cfg::default());
            sim.send(client(0), &vs[a].1, NOW, &vs[a].0);
            match two {
                0 => {
                    sim.send(client(1), &vs[b].1, NOW, &vs[b].0);
                }
                1 => {
                    let mut d = vs[b].1.clone();
                    if d.len() > 1 {
                        d[1] ^= 1;
                    }
                    sim.send(client(0), &d, NOW, &vs[b].0);
                }
                _ => {
                    // the other client's secret makes the same octets bad
                    sim.w.s.lock().unwrap().secrets.push((client(2), Sec::Is(b"another-secret".to_vec())));
                    sim.send(client(2), &vs[b].1, NOW, &vs[b].0);
                }
            }
            sim.quiet();
            sim.check_running();
        },
    )
}

/// Clients with secrets of their own, concurrently.
fn own_secrets(thorough: bool) -> Scenario {
    Scenario::new(
        "own-secrets",
        "three concurrent requests of clients with different secrets (types 1, 4, 40, 43), one of them with the wrong one; all interleavings within the preemption bound".into(),
        Budget { preemptions: if thorough { 3 } else { 1 }, selects: 0, ..Default::default() },
        move || {
            let c = [1u8, 4, 40, 43][choose(4)];
            let wrong = choose(4);
            let sim = Sim::start(Cfg { default_secret: Sec::Fetch, ..Default::default() });
            for i in 0..3usize {
                let s = vec![b'k', b'0' + i as u8, i as u8];
                sim.w.s.lock().unwrap().secrets.push((client(i), Sec::Is(s.clone())));
                let used = if wrong == i { vec![b'k', b'0' + (i as u8 + 1) % 3, 9] } else { s };
                sim.send(client(i), &request(c, 9, &used, i as u8), Beh { yields: 1, ..NOW }, "own secret");
            }
            sim.quiet();
            sim.check_running();
        },
    )
}

const BEHS: [Beh; 8] = [
    Beh { yields: 0, hold: true, end: End::Ok, reply: false },
    Beh { yields: 0, hold: false, end: End::Ok, reply: false },
    Beh { yields: 0, hold: false, end: End::Panic, reply: false },
    Beh { yields: 1, hold: false, end: End::Ok, reply: true },
    Beh { yields: 0, hold: false, end: End::Err, reply: false },
    Beh { yields: 0, hold: true, end: End::Panic, reply: false },
    Beh { yields: 0, hold: true, end: End::Err, reply: false },
    Beh { yields: 2, hold: false, end: End::Panic, reply: false },
];

fn race(name: &str, pats: &'static [&'static [usize]], nbeh: usize, preempt: u32, code_choices: &'static [u8]) -> Scenario {
    Scenario::new(
        name,
        format!("{} patterns of concurrent requests (same and different address, port, identifier) x handler behaviours (at once, yielding, held; ok, error, panic), then a second round; all interleavings with at most {preempt} preemptions", pats.len()),
        Budget { preemptions: preempt, selects: 0, ..Default::default() },
        move || {
            let pat = pats[choose(pats.len())];
            let code = code_choices[choose(code_choices.len())];
            let repeats = pat[1..].contains(&pat[0]);
            let same_bytes = repeats && choose(2) == 1;
            let behs: Vec<Beh> = pat.iter().map(|_| BEHS[choose(nbeh)]).collect();
            let sim = Sim::start(Cfg::default());
            for (j, k) in pat.iter().enumerate() {
                let (from, id) = key(*k);
                let nonce = if same_bytes { *k as u8 } else { j as u8 };
                sim.send(from, &request(code, id, SECRET, nonce), behs[j], "race");
            }
            sim.quiet();
            sim.check_running();
            // a duplicate while the held ones are running, with others
            for k in [pat[0], 4] {
                let (from, id) = key(k);
                sim.send(from, &request(code, id, SECRET, 100), NOW, "second round");
            }
            sim.quiet();
            mcrt::freeze();
            end_all(&sim);
            // everything has ended: all keys are served again
            for k in pat {
                let (from, id) = key(*k);
                sim.send(from, &request(code, id, SECRET, 200), NOW, "third round");
                sim.quiet();
            }
            sim.check_running();
        },
    )
}

/// All event histories up to a depth, each event followed by quiescence.
fn histories(depth: usize, keys: usize, with_stop: bool) -> Scenario {
    Scenario::new(
        "histories",
        format!("every history of up to {depth} events: a request or a repeated request of {keys} clients, a bad datagram, a handler ending (ok, error, panic), an hour passing{}", if with_stop { ", shutdown, running again" } else { "" }),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let sim = Sim::start(Cfg::default());
            let mut nonce = 0u8;
            let mut stopped = false;
            for _ in 0..depth {
                let prog = sim.in_progress();
                // enabled events: sends, repeats, garbage, time, endings, stop/run
                let mut n = keys + 1 + 1 + 1;
                let ends = prog.len() * 3;
                n += ends + with_stop as usize;
                let c = choose(n);
                nonce += 1;
                if c < keys {
                    let (from, id) = key(c);
                    sim.send(from, &request(1, id, SECRET, nonce), HELD, "request");
                } else if c == keys {
                    // the very same octets again
                    let (from, id) = key(0);
                    sim.send(from, &request(4, id, SECRET, 0), HELD, "repeated request");
                } else if c == keys + 1 {
                    let (from, id) = key(0);
                    let mut d = request(4, id, b"wrong", nonce);
                    d[5] ^= 0x55;
                    sim.send(from, &d, HELD, "bad datagram");
                } else if c == keys + 2 {
                    mcrt::sleep(Duration::from_secs(3600));
                } else if c < keys + 3 + ends {
                    let e = c - keys - 3;
                    sim.open(prog[e / 3], ENDS[e % 3]);
                } else if stopped {
                    stopped = false;
                    sim.run();
                } else {
                    stopped = true;
                    sim.shutdown();
                }
                let before = sim.ended();
                sim.quiet();
                if stopped {
                    if sim.last_result() != Some(Ok(())) || sim.w.s.lock().unwrap().running {
                        report("run-not-ended", || format!("after shutdown: {:?}", sim.last_result()));
                    }
                } else {
                    sim.check_running();
                    if sim.ended() != before {
                        return;
                    }
                }
            }
            if stopped {
                sim.run();
                sim.quiet();
            }
            end_all(&sim);
            for k in 0..keys {
                let (from, id) = key(k);
                sim.send(from, &request(1, id, SECRET, 240 + k as u8), NOW, "afterwards");
                sim.quiet();
            }
            sim.check_running();
        },
    )
}

/// Shutdown racing with arrivals and running handlers, then a restart.
fn shutdowns(preempt: u32, selects: u32) -> Scenario {
    Scenario::new(
        "shutdown-races",
        format!("shutdown before, between or after 2 requests whose handlers are held, yield or end at once; datagrams while stopped; run again with duplicates of what is in progress; at most {preempt} preemptions, {selects} other select! starts"),
        Budget { preemptions: preempt, selects, ..Default::default() },
        move || {
            let at = choose(4);
            let same = choose(2) == 1;
            let b = [BEHS[0], BEHS[1], BEHS[3]][choose(3)];
            let sim = Sim::start(Cfg::default());
            let reqs = [key(0), if same { key(0) } else { key(1) }];
            for (i, (from, id)) in reqs.iter().enumerate() {
                if at == i {
                    sim.shutdown();
                }
                sim.send(*from, &request(1, *id, SECRET, i as u8), b, "around the shutdown");
            }
            if at == 2 {
                sim.shutdown();
            }
            sim.quiet();
            if at == 3 {
                sim.check_running();
                sim.shutdown();
                sim.quiet();
            }
            let st = sim.w.s.lock().unwrap().running;
            if st || sim.last_result() != Some(Ok(())) || sim.ended() != 1 {
                report("run-not-ended", || format!("run() after the shutdown trigger: {:?}", sim.last_result()));
                return;
            }
            // while stopped nothing is handled
            let n = sim.w.s.lock().unwrap().invs.len();
            sim.send(key(3).0, &request(1, key(3).1, SECRET, 50), NOW, "while stopped");
            sim.quiet();
            if sim.w.s.lock().unwrap().invs.len() != n {
                report("after-end", || "a datagram was handled while the server was stopped".into());
            }
            let held = sim.in_progress();
            mcrt::freeze();
            // run again
            sim.run();
            sim.quiet();
            sim.check_running();
            let (from, id) = key(0);
            sim.send(from, &request(1, id, SECRET, 51), NOW, "after running again");
            sim.send(key(2).0, &request(1, key(2).1, SECRET, 52), NOW, "other client after running again");
            sim.quiet();
            // those held must still be running
            let now = sim.in_progress();
            for k in &held {
                if !now.contains(k) {
                    report("cancelled", || format!("the handler of datagram {k} did not survive the shutdown"));
                }
            }
            end_all(&sim);
            sim.send(from, &request(1, id, SECRET, 53), NOW, "after everything ended");
            sim.quiet();
            sim.shutdown();
            sim.quiet();
            if sim.last_result() != Some(Ok(())) || sim.ended() != 2 {
                report("run-not-ended", || format!("second run() after the shutdown trigger: {:?}", sim.last_result()));
            }
        },
    )
}

/// The program drops the server once its run has ended; what it has begun goes on.
fn dropped(t: bool) -> Scenario {
    Scenario::new(
        "dropped",
        format!("one or two runs of the server, ended by the trigger (also one that has fired before) or by a receive error, with 1 or 2 handlers held, yielding or replying; then the server is dropped; the handlers end (ok, error, panic); at most {} preemptions", 1 + t as u32),
        Budget { preemptions: 1 + t as u32, selects: 1, ..Default::default() },
        move || {
            let how = choose(3);
            let b = [BEHS[0], BEHS[3], Beh { yields: 1, hold: true, end: End::Ok, reply: true }, Beh { yields: 3, hold: false, end: End::Ok, reply: true }][choose(4)];
            let two = choose(2) == 1;
            let quiet = choose(2) == 1;
            let sim = Sim::start(Cfg::default());
            let n = 1 + two as usize;
            for i in 0..n {
                sim.send(key(i).0, &request(1, key(i).1, SECRET, i as u8), b, "before the end");
            }
            mcrt::quiesce();
            let mut runs = 1;
            let end = |sim: &Sim| {
                if how == 1 {
                    sim.stopping();
                    net().deliver_error(sim.addr, std::io::ErrorKind::Other, "the line is cut");
                } else {
                    sim.shutdown();
                }
            };
            end(&sim);
            if how == 2 {
                // a run whose trigger has fired before it begins
                sim.quiet();
                sim.run();
                sim.shutdown();
                runs = 2;
            }
            if quiet {
                sim.quiet();
            }
            sim.give_up();
            sim.quiet();
            let (ok, r) = (sim.ended() == runs, sim.last_result());
            if !ok || (how != 1 && r != Some(Ok(()))) || (how == 1 && !matches!(r, Some(Err(_)))) {
                report("run-not-ended", || format!("run() at its end: {r:?}"));
            }
            let prog = sim.in_progress();
            if b.hold && prog.len() != n {
                report("cancelled", || format!("{} of {n} handlers are still running", prog.len()));
            }
            sim.send(key(3).0, &request(1, key(3).1, SECRET, 50), NOW, "after the end");
            sim.quiet();
            if sim.w.s.lock().unwrap().invs.len() != n {
                report("after-end", || "a datagram was handled although the server is gone".into());
            }
            for (i, k) in prog.iter().enumerate() {
                sim.open(*k, ENDS[i]);
                sim.quiet();
            }
            if !sim.in_progress().is_empty() {
                report("blocked", || "a handler does not go on".into());
            }
            let replies = net().sent().iter().filter(|s| s.1 == sim.addr).count();
            let ended = if b.hold { prog.len() } else { n };
            if b.reply && replies != ended {
                report("cancelled", || format!("{replies} replies of {ended} handlers went out"));
            }
        },
    )
}

/// What arrives while the server does not run waits for the next run.
fn stopped(t: bool) -> Scenario {
    let n = 3;
    Scenario::new(
        "stopped",
        format!("1 to {n} datagrams (2 clients, genuine, forged or malformed) arrive before the first run, or between two runs with or without a handler still running; settings left or changed meanwhile; then the server runs"),
        Budget { preemptions: t as u32, selects: t as u32, ..Default::default() },
        move || {
            let sim = Sim::listen(Cfg::default());
            sim.quiet();
            let mut nonce = 0u8;
            let before = choose(3);
            if before > 0 {
                mcrt::freeze();
                sim.run();
                sim.quiet();
                sim.send(key(0).0, &request(1, key(0).1, SECRET, 90), if before == 1 { NOW } else { HELD }, "in the run before");
                sim.quiet();
                sim.shutdown();
                sim.quiet();
                mcrt::thaw();
            }
            let entered = sim.w.s.lock().unwrap().invs.len();
            for _ in 0..1 + choose(n) {
                let k = key(choose(2));
                nonce += 1;
                let d = request([1, 4][(nonce & 1) as usize], k.1, SECRET, nonce);
                match choose(3) {
                    0 => sim.send(k.0, &d, NOW, "while it does not run"),
                    1 => sim.send(k.0, &request(4, k.1, b"forged", nonce), NOW, "forged"),
                    _ => sim.send(k.0, &d[..d.len() - 1], NOW, "truncated"),
                };
            }
            sim.quiet();
            if sim.w.s.lock().unwrap().invs.len() != entered {
                report("after-end", || "a datagram was handled while the server did not run".into());
            }
            match choose(3) {
                0 => sim.run(),
                1 => sim.run_with(Some(64), None),
                _ => sim.run_with(None, Some(true)),
            }
            sim.quiet();
            sim.check_running();
            end_all(&sim);
        },
    )
}

/// Receive errors end the run with that error; running again works.
fn recv_errors() -> Scenario {
    Scenario::new(
        "receive-errors",
        "6 kinds of receive errors, before, between and after requests, with handlers held or not; then running again".into(),
        Budget { preemptions: 1, selects: 1, ..Default::default() },
        move || {
            use std::io::ErrorKind::*;
            let kind = [Other, ConnectionRefused, ConnectionReset, Interrupted, PermissionDenied, OutOfMemory][choose(6)];
            let at = choose(3);
            let b = [BEHS[1], BEHS[0]][choose(2)];
            let sim = Sim::start(Cfg::default());
            if at > 0 {
                sim.send(key(0).0, &request(1, 7, SECRET, 1), b, "before the error");
                sim.quiet();
            }
            sim.stopping();
            if at == 2 {
                sim.send(key(1).0, &request(1, 8, SECRET, 2), b, "just before the error");
            }
            net().deliver_error(sim.addr, kind, "the line is cut");
            sim.quiet();
            match sim.last_result() {
                Some(Err(e)) if e == "the line is cut" => {}
                r => {
                    report("run-result", || format!("run() after a receive error: {r:?}"));
                    return;
                }
            }
            sim.run();
            sim.quiet();
            sim.check_running();
            sim.send(key(2).0, &request(1, 7, SECRET, 3), NOW, "after the error");
            sim.quiet();
            end_all(&sim);
            sim.send(key(0).0, &request(1, 7, SECRET, 4), NOW, "after the error");
            sim.quiet();
        },
    )
}

/// Buffer sizes.
fn buffers(thorough: bool) -> Scenario {
    let sizes: Vec<Option<usize>> = if thorough {
        let mut v: Vec<Option<usize>> = vec![None];
        v.extend((0..=80).map(Some));
        v.extend([100, 255, 256, 257, 511, 512, 1024, 1499, 1500, 1501, 2000, 2048, 4095, 4096, 4097, 8192, 65507, 65535].map(Some));
        v
    } else {
        vec![None, Some(0), Some(1), Some(19), Some(20), Some(21), Some(22), Some(40), Some(255), Some(256), Some(1024), Some(1499), Some(1501), Some(4095), Some(4096), Some(4097), Some(65535)]
    };
    Scenario::new(
        "buffers",
        format!("{} buffer sizes (and the default) x sizes around each x padding x request types, first a datagram of that size, then small ones; set before running or between two runs", sizes.len() - 1),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let b = sizes[choose(sizes.len())];
            let buf = b.unwrap_or(1500);
            let code = [1u8, 4][choose(2)];
            let late = b.is_some() && choose(2) == 1;
            let skip = choose(2) == 1;
            // sizes around the buffer size and others
            let cands: Vec<usize> = [20usize, 21, 22, 23, 40, buf.saturating_sub(1), buf, buf + 1, buf + 2, buf + 3, 275, 276, 1498, 1499, 1500, 1501, 1502, 2000, 4095, 4096]
                .into_iter()
                .filter(|n| (20..=4096).contains(n) && *n != 21)
                .collect();
            let n = cands[choose(cands.len())];
            let pad = [0usize, 1, 40, buf.saturating_sub(n), (buf + 1).saturating_sub(n)][choose(5)].min(65507 - n);
            let mut attrs = vec![];
            let mut left = n - 20;
            while left > 0 {
                let mut l = left.min(255);
                if left - l == 1 {
                    l -= 1;
                }
                attrs.push((25, util::pattern(l - 2, left as u64)));
                left -= l;
            }
            let m = MPacket { code, id: 3, auth: util::auth16(1), attrs };
            let mut big = model::encode(&m, SECRET).unwrap();
            big.extend(vec![0; pad]);
            let sim = if late {
                let sim = Sim::start(Cfg { skip: Some(skip), ..Default::default() });
                sim.shutdown();
                sim.quiet();
                sim.run_with(b, None);
                sim.quiet();
                sim
            } else {
                Sim::start(Cfg { buf: b, skip: Some(skip), ..Default::default() })
            };
            sim.send(client(0), &big, NOW, &format!("{n} octets and {pad} of padding, buffer {buf}"));
            sim.quiet();
            // a smaller one must not see octets of the bigger one
            let small = model::encode(&MPacket { code, id: 4, auth: util::auth16(2), attrs: vec![] }, SECRET).unwrap();
            sim.send(client(0), &small, NOW, "20 octets afterwards");
            let mut cut = small.clone();
            cut[1] = 5;
            cut[3] = 40;
            sim.send(client(0), &cut, NOW, "20 octets announcing 40");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// The validation switch between runs.
fn switches() -> Scenario {
    Scenario::new(
        "switches",
        "every sequence of 3 runs with the validation switch left alone, off or on, a genuine and a forged request of 4 types in each".into(),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let code = [1u8, 4, 40, 43][choose(4)];
            let sim = Sim::start(Cfg::default());
            for i in 0..3u8 {
                if i > 0 {
                    sim.shutdown();
                    sim.quiet();
                    sim.run_with(None, [None, Some(true), Some(false)][choose(3)]);
                    sim.quiet();
                }
                sim.send(client(0), &request(code, 10 + i, SECRET, i), NOW, "genuine");
                sim.quiet();
                sim.send(client(0), &request(code, 20 + i, b"forged", 10 + i), NOW, "forged");
                sim.quiet();
                let mut t = request(code, 30 + i, SECRET, 20 + i);
                t[0] = 2;
                sim.send(client(0), &t, NOW, "an Access-Accept");
                sim.quiet();
                let g = request(code, 40 + i, SECRET, 30 + i);
                sim.send(client(0), &g[..g.len() - 1], NOW, "truncated");
                sim.quiet();
            }
            sim.check_running();
        },
    )
}

/// Load: many requests at once, some ending, none waiting for another.
fn many(thorough: bool) -> Scenario {
    let sizes: &'static [usize] = if thorough { &[5, 17, 64, 65, 127, 129, 256, 300, 513, 1025, 2049, 4100] } else { &[5, 17, 64, 65, 300, 1030] };
    Scenario::new(
        "many",
        format!("5 to {} requests in progress at once from different clients; duplicates of all of them; all end; all again", sizes.last().unwrap()),
        Budget { preemptions: 0, switches: 0, selects: 0, steps: 5_000_000 },
        move || {
            let n = sizes[choose(sizes.len())];
            let by = choose(3);
            let k = |i: usize| match by {
                0 => (sa(&format!("10.1.{}.{}:1000", i / 250, i % 250 + 1)), 1u8),
                1 => (sa(&format!("10.1.0.1:{}", 1000 + i)), 1u8),
                _ => (sa(&format!("10.1.{}.1:1000", i / 256)), (i % 256) as u8),
            };
            let sim = Sim::start(Cfg::default());
            for round in 0..2u8 {
                for i in 0..n {
                    sim.send(k(i).0, &request(1, k(i).1, SECRET, round), HELD, "many");
                }
                sim.quiet();
                for i in 0..n {
                    sim.send(k(i).0, &request(1, k(i).1, SECRET, 100), HELD, "duplicate");
                }
                sim.quiet();
                if sim.in_progress().len() != n {
                    report("lost", || format!("{} of {n} handlers are running", sim.in_progress().len()));
                }
                end_all(&sim);
            }
            sim.check_running();
        },
    )
}

/// Requests of all types and contents in progress, and their duplicates of other types and contents.
fn kinds(thorough: bool) -> Scenario {
    let mut all: Vec<u8> = model::REGISTERED.to_vec();
    all.extend([0, 6, 10, 46, 254]);
    if thorough {
        all = (0..=255).collect();
    }
    Scenario::new(
        "kinds",
        format!("requests of every pair of types (the 5 request types; with validation off {} types) and every pair of 8 contents: held, its duplicate, the same octets again, one with another identifier, one from another port; after the end of the first the duplicate again", all.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let skip = choose(2) == 1;
            let (a, b, x, y);
            if skip {
                a = all[choose(all.len())];
                b = all[choose(all.len())];
                x = choose(2);
                y = [x, 1, 5][choose(3)];
            } else {
                const R: [u8; 5] = [1, 4, 12, 40, 43];
                a = R[choose(5)];
                b = R[choose(5)];
                x = choose(8);
                y = choose(8);
            }
            let mk = |c: u8, id: u8, what: usize| -> Vec<u8> {
                let attrs: Vec<model::Attr> = match what {
                    0 => vec![(1, b"bob".to_vec())],
                    1 => vec![],
                    2 => vec![(1, b"bob".to_vec()), (33, b"proxy".to_vec())],
                    3 => vec![(79, util::pattern(200, 1)), (80, util::pattern(16, 2)), (24, b"state".to_vec())],
                    4 => (0..5).map(|k| (25, util::pattern(250, k))).collect(),
                    5 => vec![(1, b"bob".to_vec()), (4, vec![10, 0, 0, 1]), (32, b"nas".to_vec())],
                    6 => vec![(40, vec![0, 0, 0, 1]), (44, b"session".to_vec())],
                    _ => vec![(40, vec![0, 0, 0, 2]), (44, b"session".to_vec()), (26, vec![0, 0, 0, 9, 1, 4, 65, 66])],
                };
                let m = MPacket { code: c, id, auth: util::auth16(what as u64), attrs };
                model::encode(&m, SECRET).unwrap_or_else(|| {
                    let mut d = model::encode(&MPacket { code: 1, ..m.clone() }, SECRET).unwrap();
                    d[0] = c;
                    d
                })
            };
            let sim = Sim::start(Cfg { skip: Some(skip), default_secret: Sec::Is(SECRET.to_vec()), ..Default::default() });
            let from = client(0);
            let ka = sim.send(from, &mk(a, 9, x), HELD, "one");
            sim.quiet();
            sim.send(from, &mk(b, 9, y), HELD, "its duplicate");
            sim.quiet();
            sim.send(from, &mk(a, 9, x), HELD, "the same octets again");
            sim.quiet();
            sim.send(from, &mk(b, 10, y), NOW, "another identifier");
            let mut other = from;
            other.set_port(from.port() + 1);
            sim.send(other, &mk(b, 9, y), NOW, "another port");
            sim.quiet();
            sim.open(ka, End::Ok);
            sim.quiet();
            sim.send(from, &mk(b, 9, y), NOW, "after the end");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// The key of a request is its whole sender address and its identifier, and nothing else.
fn keys(thorough: bool) -> Scenario {
    use std::net::{Ipv4Addr, Ipv6Addr, SocketAddrV6};
    // (one, other): different clients or identifiers
    let mut v: Vec<((SocketAddr, u8), (SocketAddr, u8))> = vec![];
    let v4 = |b: u64| {
        let a: u32 = 0x0a00_0001 ^ (b >> 24) as u32;
        (SocketAddr::from((Ipv4Addr::from(a), 5000 ^ (b >> 8) as u16)), 7 ^ b as u8)
    };
    for i in 0..56u64 {
        v.push((v4(0), v4(1 << i)));
        for j in 0..i {
            v.push((v4(0), v4(1 << i | 1 << j)));
            // one of each: sums and differences alike
            v.push((v4(1 << i), v4(1 << j)));
        }
    }
    let bits = |i: u32| -> (u128, u64) { if i < 128 { (1 << i, 0) } else { (0, 1 << (i - 128)) } };
    let v6 = |(h, l): (u128, u64)| {
        let a: u128 = 0x20010db8_00000000_00000000_00000001 ^ h;
        (SocketAddr::from((Ipv6Addr::from(a), 5000 ^ (l >> 8) as u16)), 7 ^ l as u8)
    };
    for i in 0..152 {
        v.push((v6((0, 0)), v6(bits(i))));
        for j in (0..i).filter(|j| thorough || (i - j) % 8 == 0) {
            let (a, b) = (bits(i), bits(j));
            v.push((v6((0, 0)), v6((a.0 ^ b.0, a.1 ^ b.1))));
            v.push((v6(a), v6(b)));
        }
    }
    // the same text when put together carelessly
    for (a, x, b, y) in [
        ("10.0.0.1:55000", 7, "10.0.0.15:5000", 7),
        ("10.0.0.1:5000", 17, "10.0.0.1:50001", 7),
        ("10.0.0.1:500", 12, "10.0.0.1:5001", 2),
        ("10.0.0.1:5000", 7, "10.0.0.1:50007", 0),
        ("10.0.1.1:5000", 7, "10.0.11.0:5000", 7),
        ("1.11.1.1:5000", 7, "11.1.1.1:5000", 7),
        ("[2001:db8::1]:5000", 7, "[2001:db8::1:5000]:7", 7),
        ("[2001:db8::1:2]:3", 7, "[2001:db8::1]:2", 37),
        ("[::ffff:10.0.0.1]:5000", 7, "[::10.0.0.1]:5000", 7),
    ] {
        v.push(((sa(a), x), (sa(b), y)));
    }
    // identifiers of one client
    for a in 0..=255u8 {
        for b in [0, 1, 2, 127, 128, 254, 255, a.wrapping_add(1), !a, a.swap_bytes().rotate_left(4)] {
            if a != b {
                v.push(((sa("10.0.0.1:5000"), a), (sa("10.0.0.1:5000"), b)));
            }
        }
    }
    // link-local addresses of two interfaces
    let ll = |scope| SocketAddr::V6(SocketAddrV6::new("fe80::1".parse().unwrap(), 5000, 0, scope));
    v.push(((ll(1), 7), (ll(2), 7)));
    v.push(((ll(0), 7), (ll(3), 7)));
    let n = v.len();
    Scenario::new(
        "keys",
        format!("{n} pairs of clients that differ in one or two bits of the address (IPv4, IPv6), port or identifier, or whose texts run together alike: both in progress, duplicates of both dropped, one ends, its next request is handled"),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let (a, b) = v[choose(v.len())];
            let first = choose(2);
            let sim = Sim::start(Cfg { v6: a.0.is_ipv6(), ..Default::default() });
            let ka = sim.send(a.0, &request(1, a.1, SECRET, 1), HELD, "one");
            sim.quiet();
            let kb = sim.send(b.0, &request(1, b.1, SECRET, 2), HELD, "the other");
            sim.quiet();
            for x in [a, b] {
                sim.send(x.0, &request(4, x.1, SECRET, 3), HELD, "duplicate");
            }
            sim.quiet();
            let (k, x) = if first == 0 { (ka, a) } else { (kb, b) };
            sim.open(k, End::Ok);
            sim.quiet();
            for y in [a, b] {
                sim.send(y.0, &request(1, y.1, SECRET, 4), HELD, if y == x { "next" } else { "duplicate" });
            }
            sim.quiet();
            end_all(&sim);
            sim.check_running();
        },
    )
}

/// A long run: nothing wears out.
fn long_run(n: usize) -> Scenario {
    Scenario::new(
        "long-run",
        format!("{n} requests one after the other (always the same key, cycling identifiers, or cycling clients), each with a duplicate while it is in progress, ending in success, error or panic"),
        Budget { preemptions: 0, switches: 0, selects: 0, steps: 200_000_000 },
        move || {
            let by = choose(3);
            let end = ENDS[choose(3)];
            let sim = Sim::start(Cfg::default());
            for i in 0..n {
                let (from, id) = match by {
                    0 => (client(0), 7),
                    1 => (client(0), (i % 256) as u8),
                    _ => (sa(&format!("10.{}.{}.{}:5000", i >> 16, i >> 8 & 255, i & 255)), 7),
                };
                let k = sim.send(from, &request(1, id, SECRET, 1), HELD, "one of many");
                sim.quiet();
                sim.send(from, &request(1, id, SECRET, 2), HELD, "duplicate");
                sim.quiet();
                if sim.in_progress() != [k] {
                    report("lost", || format!("request {i}: in progress {:?}", sim.in_progress()));
                    return;
                }
                sim.open(k, end);
                sim.quiet();
                if !sim.in_progress().is_empty() {
                    return report("blocked", || format!("request {i}: its handler does not go on"));
                }
                sim.forget();
            }
            sim.check_running();
        },
    )
}

/// What the provider says changes over time.
fn rotation(depth: usize) -> Scenario {
    Scenario::new(
        "rotation",
        format!("every sequence of {depth} requests with the same address and identifier, before each of which the provider's answer for the address becomes one of two secrets, an empty one, an error or a panic; signed with either secret; the ones in progress kept or ended before"),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let code = [4u8, 1][choose(2)];
            let sim = Sim::start(Cfg { default_secret: Sec::Fetch, ..Default::default() });
            let secs: [&[u8]; 2] = [SECRET, b"the new one"];
            for i in 0..depth {
                let sec = match choose(5) {
                    0 => Sec::Is(secs[0].to_vec()),
                    1 => Sec::Is(secs[1].to_vec()),
                    2 => Sec::Is(vec![]),
                    3 => Sec::Generic,
                    _ => Sec::Panic,
                };
                sim.w.s.lock().unwrap().secrets = vec![(client(0), sec)];
                let sign = secs[choose(2)];
                if !sim.in_progress().is_empty() && choose(2) == 1 {
                    end_all(&sim);
                }
                sim.send(client(0), &request(code, 7, sign, i as u8), HELD, "rotation");
                sim.quiet();
                sim.check_running();
            }
            end_all(&sim);
            sim.w.s.lock().unwrap().secrets = vec![(client(0), Sec::Is(secs[0].to_vec()))];
            sim.send(client(0), &request(code, 7, secs[0], 99), NOW, "afterwards");
            sim.quiet();
            sim.check_running();
        },
    )
}

/// Other buffer sizes from run to run.
fn resizes() -> Scenario {
    let sizes = [None, Some(20usize), Some(100), Some(1500), Some(4096)];
    Scenario::new(
        "resizes",
        "every sequence of 4 runs with the buffer size left alone or set to 20, 100, 1500 or 4096, datagrams of 20, 100, 102, 1500, 1502 and 4096 octets in each, in both orders".into(),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            let down = choose(2) == 1;
            let b = sizes[choose(sizes.len())];
            let sim = Sim::start(Cfg { buf: b, ..Default::default() });
            for run in 0..4u8 {
                if run > 0 {
                    sim.shutdown();
                    sim.quiet();
                    sim.run_with(sizes[choose(sizes.len())], None);
                    sim.quiet();
                }
                let mut lens = [20usize, 100, 102, 1500, 1502, 4096];
                if down {
                    lens.reverse();
                }
                for (k, n) in lens.into_iter().enumerate() {
                    let mut attrs = vec![];
                    let mut left = n - 20;
                    while left > 0 {
                        let mut l = left.min(255);
                        if left - l == 1 {
                            l -= 1;
                        }
                        attrs.push((25, util::pattern(l - 2, left as u64)));
                        left -= l;
                    }
                    let m = MPacket { code: 1, id: run * 10 + k as u8, auth: util::auth16(n as u64), attrs };
                    sim.send(client(0), &model::encode(&m, SECRET).unwrap(), NOW, &format!("{n} octets"));
                    sim.quiet();
                }
            }
            sim.check_running();
        },
    )
}

/// Time passes.
fn aging(thorough: bool) -> Scenario {
    const AGES: [u64; 7] = [0, 31, 90_000, 5_000_000, 400, 1, 6];
    let n = if thorough { 4 } else { 3 };
    Scenario::new(
        "aging",
        format!("every sequence of {n} steps out of: the same request again (same octets or new ones), the handlers end (ok, error, panic), shutdown and running again; 0 s to 58 days pass before each"),
        Budget { preemptions: 0, selects: 0, switches: 0, ..Default::default() },
        move || {
            let sim = Sim::start(Cfg::default());
            let (from, id) = key(0);
            let code = [4u8, 1][choose(2)];
            sim.send(from, &request(code, id, SECRET, 1), HELD, "first");
            sim.quiet();
            let mut nonce = 1u8;
            for _ in 0..n {
                let age = AGES[choose(if thorough { 5 } else { AGES.len() })];
                mcrt::sleep(Duration::from_secs(age));
                mcrt::quiesce();
                match choose(6) {
                    0 => drop(sim.send(from, &request(code, id, SECRET, nonce), HELD, "same octets")),
                    1 => {
                        nonce += 1;
                        sim.send(from, &request(code, id, SECRET, nonce), HELD, "new octets");
                    }
                    5 => {
                        sim.shutdown();
                        sim.quiet();
                        sim.run();
                    }
                    _ if sim.in_progress().is_empty() => return,
                    e => sim.in_progress().into_iter().for_each(|k| sim.open(k, ENDS[e - 2])),
                }
                sim.quiet();
                sim.check_running();
            }
            sim.send(client(1), &request(code, id, SECRET, 99), NOW, "another client");
            sim.quiet();
            end_all(&sim);
            sim.send(from, &request(code, id, SECRET, nonce), NOW, "afterwards");
            sim.quiet();
        },
    )
}

/// Where a server listens, and what its handlers' connection is.
fn listens() -> Scenario {
    const HOSTS: [&str; 4] = ["127.0.0.1", "0.0.0.0", "[::1]", "[::]"];
    const PORTS: [u16; 4] = [1812, 0, 1, 65535];
    Scenario::new(
        "listen",
        "4 hosts × 4 ports, the address free or in use, binding works or fails (5 kinds of errors) at once or after a while; then a request whose handler replies, and one after running again; hosts that are none".into(),
        Budget { preemptions: 0, selects: 0, ..Default::default() },
        move || {
            use mctokio::net::Fault;
            use std::io::ErrorKind::*;
            let host = HOSTS[choose(HOSTS.len())];
            let port = PORTS[choose(PORTS.len())];
            let cfg = Cfg { v6: host.starts_with('['), ..Default::default() };
            let other = choose(4);
            let first = match other {
                // the address is in use already; or a neighbouring one is
                1 => Sim::listen_at(cfg.clone(), host, port).ok(),
                2 => Sim::listen_at(Cfg { second: Some(0), ..cfg.clone() }, host, port ^ 2).ok(),
                _ => None,
            };
            let fault = if other == 0 { choose(12) } else { 0 };
            let kinds = [AddrInUse, AddrNotAvailable, PermissionDenied, Other, Interrupted];
            let want = match fault {
                0 if other == 1 && port != 0 => Some(AddrInUse),
                0 => None,
                11 => None,
                f => Some(kinds[(f - 1) % 5]),
            };
            let f = match fault {
                0 => Fault::None,
                11 => Fault::Delay(Duration::from_secs(5)),
                f if f < 6 => Fault::Err(kinds[f - 1], "no such luck"),
                f => Fault::DelayErr(Duration::from_secs(5), kinds[f - 6], "no such luck"),
            };
            net().s.lock().unwrap().bind.push_back(f);
            let bad = other == 3;
            let asked = if bad { ["a\0b", "\0", "127.0.0.1\0"][choose(3)] } else { host };
            let desc = || format!("listening on {asked:?} port {port}");
            // the addresses of the other server and of this one are kept apart
            let r = Sim::listen_at(Cfg { second: Some(0), ..cfg }, asked, port);
            let sim = match (r, want) {
                (Err(_), _) if bad => return,
                (Err(e), Some(k)) if e.kind() == k && (fault == 0 || e.to_string() == "no such luck") => return,
                (Err(e), _) => return report("listen", || format!("{} failed with {e:?}", desc())),
                (Ok(_), Some(k)) => return report("listen", || format!("{} succeeded instead of failing with {k:?}", desc())),
                (Ok(_), _) if bad => return report("listen", || format!("{} succeeded", desc())),
                (Ok(s), None) => s,
            };
            let ip: std::net::IpAddr = host.trim_matches(['[', ']']).parse().unwrap();
            if sim.addr.ip() != ip || (port != 0 && sim.addr.port() != port) || sim.addr.port() == 0 {
                return report("listen", || format!("{} listens on {}", desc(), sim.addr));
            }
            if first.as_ref().is_some_and(|f| f.addr == sim.addr) {
                return report("listen", || format!("two servers listen on {}", sim.addr));
            }
            let c = if ip.is_ipv6() { client6(0) } else { client(0) };
            let beh = Beh { reply: true, ..NOW };
            sim.send(c, &request(1, 7, SECRET, 1), beh, "before running");
            sim.run();
            sim.quiet();
            sim.send(c, &request(1, 8, SECRET, 2), beh, "while running");
            sim.quiet();
            sim.shutdown();
            sim.quiet();
            sim.run();
            sim.quiet();
            sim.send(c, &request(1, 9, SECRET, 3), beh, "while running again");
            sim.quiet();
            sim.check_running();
            let sent = net().sent();
            let want: Vec<Vec<u8>> = (1..4u8)
                .map(|n| {
                    let rq = request(1, 6 + n, SECRET, n);
                    crate::client::response(2, 6 + n, &rq, SECRET, vec![])
                })
                .collect();
            for w in &want {
                let n = sent.iter().filter(|s| s.3 == *w && s.1 == sim.addr && s.2 == c).count();
                if n != 1 {
                    report("reply", || format!("{}: the reply {} arrived {n} times from {} at {c}: {sent:?}", desc(), util_hex(w), sim.addr));
                }
            }
            if sent.len() != 3 {
                report("reply", || format!("{}: {} datagrams were sent for 3 replies", desc(), sent.len()));
            }
        },
    )
}

/// Two servers in one process.
fn servers(depth: usize, switches: u32) -> Scenario {
    Scenario::new(
        if switches > 0 { "servers-orders" } else { "servers" },
        format!("every sequence of {depth} events at either of two servers in one process with own secrets and settings: request (kept, short, long, with the other's secret), end of the handlers (ok, panic), shutdown or running again, receive error, a provider that panics; the same clients and identifiers at both"),
        Budget { preemptions: 0, switches, selects: 0, ..Default::default() },
        move || {
            let secs: [&[u8]; 2] = [SECRET, b"of the other server"];
            let set = [[(None, None), (None, None)], [(Some(40), None), (None, Some(true))], [(None, Some(true)), (Some(40), None)]][choose(3)];
            let v6 = switches > 0 && choose(2) == 1;
            mcrt::freeze();
            let sims: Vec<Sim> = (0..2)
                .map(|i| Sim::listen(Cfg { v6: v6 && i == 1, second: (i == 1).then_some(1812 + !v6 as u16), buf: set[i].0, skip: set[i].1, default_secret: Sec::Is(secs[i].to_vec()) }))
                .collect();
            for s in &sims {
                s.run();
            }
            Sim::all_quiet(&sims);
            mcrt::thaw();
            // the address alone would tell the servers apart if it were of another family
            let from = client(0);
            let at = |i: usize| if v6 && i == 1 { client6(0) } else { from };
            let long = |i: usize, n: u8| {
                let m = MPacket { code: 4, id: 9, auth: util::auth16(1), attrs: vec![(25, util::pattern(60, n as u64))] };
                model::encode(&m, secs[i]).unwrap()
            };
            let mut up = [true; 2];
            for n in 0..depth as u8 {
                let i = choose(2);
                let s = &sims[i];
                let running = up[i];
                let what = choose(8);
                match what {
                    0 => drop(s.send(at(i), &request(4, 7, secs[i], n), HELD, "kept")),
                    1 => drop(s.send(at(i), &request(1, 7, secs[i], n), NOW, "short")),
                    2 => drop(s.send(at(i), &long(i, n), NOW, "long")),
                    3 => drop(s.send(at(i), &request(4, 8, secs[1 - i], n), NOW, "with the other's secret")),
                    4 | 5 if s.in_progress().is_empty() => return,
                    4 => s.in_progress().into_iter().for_each(|k| s.open(k, End::Ok)),
                    5 => s.in_progress().into_iter().for_each(|k| s.open(k, End::Panic)),
                    6 if running => s.shutdown(),
                    6 => s.run(),
                    _ if running => {
                        s.stopping();
                        net().deliver_error(s.addr, std::io::ErrorKind::Other, "the line is cut");
                    }
                    _ => return,
                }
                up[i] = if what > 5 { !running } else { running };
                Sim::all_quiet(&sims);
                for j in 0..2 {
                    if up[j] {
                        sims[j].check_running();
                    } else if sims[j].w.s.lock().unwrap().running {
                        report("run-not-ended", || format!("server {j} did not end"));
                    }
                }
            }
            for (i, s) in sims.iter().enumerate() {
                end_all(s);
                if !up[i] {
                    s.run();
                    s.quiet();
                }
                s.send(at(i), &request(1, 7, secs[i], 100), NOW, "afterwards");
                s.send(at(i), &request(4, 8, secs[i], 101), NOW, "afterwards");
                Sim::all_quiet(&sims);
                s.check_running();
            }
        },
    )
}

/// The same requests at two servers at the same time.
fn servers_race(n: usize, preempt: u32) -> Scenario {
    Scenario::new(
        if n == 2 { "servers-race-2" } else { "servers-race-3" },
        format!("{n} requests with the same address and identifier, spread over two servers in one process in every way, handlers ending at once, with a panic, or kept"),
        Budget { preemptions: preempt, selects: 0, ..Default::default() },
        move || {
            let sims: Vec<Sim> = vec![Sim::start(Cfg::default()), Sim::start(Cfg { second: Some(1813), ..Default::default() })];
            let ends = [NOW, Beh { end: End::Panic, ..NOW }, HELD];
            for k in 0..n as u8 {
                let b = ends[choose(3)];
                sims[choose(2)].send(client(0), &request(1, 7, SECRET, k), b, "race");
            }
            Sim::all_quiet(&sims);
            for s in &sims {
                end_all(s);
                s.check_running();
            }
            for s in &sims {
                s.send(client(0), &request(1, 7, SECRET, 9), NOW, "afterwards");
            }
            Sim::all_quiet(&sims);
        },
    )
}

const P2: &[&[usize]] = &[&[0, 0], &[0, 1], &[0, 2], &[0, 3]];
const P2X: &[&[usize]] = &[&[0, 0], &[0, 1], &[0, 2], &[0, 3], &[0, 5], &[0, 6], &[1, 0], &[2, 4]];
const P3: &[&[usize]] = &[&[0, 0, 0], &[0, 0, 1], &[0, 1, 0], &[0, 2, 0], &[0, 3, 0], &[0, 1, 1]];
const P3S: &[&[usize]] = &[&[0, 0, 0], &[0, 0, 1]];
const P4: &[&[usize]] = &[&[0, 0, 0, 0], &[0, 1, 0, 1]];

pub fn scenarios(prop: &str, t: bool) -> Vec<Scenario> {
    match prop {
        "C20" => vec![aging(t), admission(t), senders(), odd_secrets(), contents(), rotation(if t { 5 } else { 4 }), pairs(t), own_secrets(t), race("race-2", P2, if t { 8 } else { 4 }, if t { 2 } else { 1 }, &[1])],
        "C21" => {
            let mut v = vec![
                aging(t),
                many(t),
                keys(t),
                kinds(t),
                rotation(if t { 5 } else { 3 }),
                long_run(if t { 3_000 } else { 1_100 }),
                histories(if t { 6 } else { 5 }, 2, false),
                race("race-2-wide", P2X, 8, 1, &[1]),
                race("race-2", P2, if t { 8 } else { 4 }, 2, &[1]),
                race("race-3", if t { P3 } else { P3S }, if t { 5 } else { 3 }, 1, &[1]),
            ];
            if t {
                v.push(race("race-2-deep", &[&[0, 0]], 4, 4, &[1]));
                v.push(race("race-3-deep", P3S, 2, 2, &[1]));
                v.push(race("race-4", P4, 2, 1, &[1]));
            }
            v
        }
        "C22" => {
            let mut v = vec![aging(t), many(t), keys(t), kinds(t), rotation(if t { 5 } else { 3 }), long_run(if t { 3_000 } else { 1_100 }), histories(if t { 6 } else { 5 }, 3, false), admission(false), race("race-2", P2X, 8, 1, &[1]), race("race-3", if t { P3 } else { P3S }, if t { 5 } else { 3 }, 1, &[1])];
            if t {
                v.push(race("race-2-deep", P2, 4, 3, &[1]));
                v.push(race("race-4", P4, 2, 1, &[1]));
            }
            v
        }
        "C23" => vec![aging(t), shutdowns(if t { 3 } else { 2 }, if t { 3 } else { 2 }), stopped(t), dropped(t), recv_errors(), histories(if t { 7 } else { 5 }, 1, true)],
        "C24" => vec![buffers(t), switches(), resizes()],
        "C29" => {
            vec![listens(), servers(if t { 5 } else { 4 }, 0), servers(if t { 4 } else { 3 }, 99), servers_race(2, if t { 2 } else { 1 }), servers_race(3, if t { 1 } else { 0 })]
        }
        "C18" => vec![admission(false), recv_errors(), switches(), histories(4, 2, true)],
        _ => vec![],
    }
}

pub fn tags(prop: &str) -> &'static [&'static str] {
    match prop {
        "C20" => &["content", "inadmissible", "twice", "lost"],
        "C21" => &["overlap"],
        "C22" => &["lost", "cancelled", "run-early", "deadlock", "blocked"],
        "C23" => &["run-early", "run-not-ended", "run-result", "after-end", "cancelled", "lost", "overlap", "deadlock"],
        "C24" => &["lost", "inadmissible", "content", "twice", "run-early"],
        "C29" => &["listen", "reply", "content", "inadmissible", "twice", "lost", "cancelled", "run-early", "run-not-ended", "overlap", "deadlock", "blocked"],
        "C18" => &["secret"],
        _ => &[],
    }
}
