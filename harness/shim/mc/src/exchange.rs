//! A client and a server of the library talking over the simulated network.
use crate::dict::{self, Kind, Res, Val, A};
use crate::dict_gen;
use crate::engine::hex;
use crate::model;
use crate::runner::Scenario;
use crate::util::{by_type, code};
use async_trait::async_trait;
use mcrt::{choose, Budget};
use mctokio::net::{net, UdpSocket};
use radius::client::Client;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::core::rfc2865;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

const SECRET: &[u8] = b"exchanged-by-pigeon";
const REQ: [u8; 5] = [1, 4, 12, 40, 43];
const RESP: [u8; 8] = [2, 3, 5, 11, 41, 42, 44, 45];

fn attrs() -> &'static Vec<(A, Vec<Val>)> {
    static T: OnceLock<Vec<(A, Vec<Val>)>> = OnceLock::new();
    T.get_or_init(|| {
        dict_gen::attrs()
            .into_iter()
            .filter(|a| a.add.is_some() && a.lookup.is_some())
            .map(|a| {
                let s = dict::samples(a.kind);
                (a, s)
            })
            .collect()
    })
}

/// what was found that known-findings.json may know: key, description
static FOUND: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
pub fn findings() -> Vec<(String, Option<String>)> {
    FOUND.lock().unwrap().iter().map(|(k, d)| (d.clone(), Some(k.clone()))).collect()
}
fn fail(s: String) {
    mcrt::trace(|| format!("!! {s}"));
    mcrt::fail(s);
}

#[derive(Clone, Debug)]
struct Plan {
    attr: usize,
    vals: Vec<Val>,
    req: u8,
    resp: u8,
    back: Vec<Val>,
    id: u8,
}
type Raw = Vec<(u8, Vec<Vec<u8>>)>;
#[derive(Default)]
struct Ex {
    plan: Mutex<Option<Plan>>,
    sent: Mutex<Raw>,
    handled: Mutex<u32>,
    /// what the handler's response held
    back: Mutex<Option<Raw>>,
    /// concurrent exchanges: (order of the responses, responses held back)
    hold: Mutex<Option<Hold>>,
}
#[derive(Clone)]
struct Hold {
    yields: Vec<u8>,
}
fn ex() -> Arc<Ex> {
    mcrt::ext::<Ex>().expect("outside an execution")
}

fn fill(p: &mut Packet, a: &A, vals: &[Val], salt: u8) -> Res<()> {
    let other = if a.num == 32 { 11 } else { 32 };
    let put = |p: &mut Packet, s: &str| if other == 32 { rfc2865::add_nas_identifier(p, s) } else { rfc2865::add_filter_id(p, s) };
    put(p, "before");
    for v in vals {
        (a.add.unwrap())(p, v, salt % 2 == 0)?;
        put(p, "");
    }
    put(p, "after");
    Ok(())
}

/// does the packet yield these values?
fn reads(p: &Packet, a: &A, vals: &[Val]) -> Result<(), String> {
    let first = a.lookup.unwrap()(p);
    if a.kind == Kind::Concat {
        let cat: Vec<u8> = vals.iter().flat_map(|v| if let Val::Bytes(b) = v { b.clone() } else { vec![] }).collect();
        let want = if cat.is_empty() { None } else { Some(Ok(Val::Bytes(cat))) };
        return if first == want { Ok(()) } else { Err(format!("reads {first:?}")) };
    }
    if first != Some(Ok(vals[0].clone())) {
        return Err(format!("looks up {first:?}"));
    }
    let all = a.lookup_all.unwrap()(p);
    if all != Ok(vals.to_vec()) {
        return Err(format!("looks up all as {all:?}"));
    }
    Ok(())
}

struct Secrets;
impl SecretProvider for Secrets {
    fn fetch_secret(&self, _: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        mcrt::point();
        Ok(SECRET.to_vec())
    }
}
struct Echo;
#[async_trait]
impl RequestHandler<(), String> for Echo {
    async fn handle_radius_request(&self, conn: &UdpSocket, r: &Request) -> Result<(), String> {
        mcrt::point();
        let x = ex();
        let p = r.get_packet();
        *x.handled.lock().unwrap() += 1;
        let plan = x.plan.lock().unwrap().clone();
        let Some(plan) = plan else { return talk(conn, r).await };
        let a = &attrs()[plan.attr].0;
        let d = || format!("{} {:?} in a request of type {}", a.name, plan.vals, plan.req);
        if p.get_identifier() != plan.id || p.get_code() != code(plan.req) {
            fail(format!("{}: the handler sees identifier {} and type {:?}", d(), p.get_identifier(), p.get_code()));
        }
        if by_type(p) != *x.sent.lock().unwrap() {
            fail(format!("{}: the handler sees the attributes {:?}", d(), by_type(p)));
        }
        let hidden = matches!(a.kind, Kind::UserPw | Kind::TunnelPw);
        if !(hidden && model::ZERO_REQ.contains(&plan.req)) {
            if let Err(e) = reads(p, a, &plan.vals) {
                fail(format!("{}: the handler {e}", d()));
            }
        }
        let mut res = p.make_response_packet(code(plan.resp));
        if let Err(e) = fill(&mut res, a, &plan.back, plan.resp) {
            fail(format!("{}: cannot put {:?} into the response: {e}", d(), plan.back));
        }
        *x.back.lock().unwrap() = Some(by_type(&res));
        match res.encode() {
            Ok(bs) => {
                let _ = conn.send_to(&bs, r.get_remote_addr()).await;
            }
            Err(e) => fail(format!("{}: cannot encode the response: {e}", d())),
        }
        Ok(())
    }
}
/// concurrent exchanges: the response names the request
async fn talk(conn: &UdpSocket, r: &Request) -> Result<(), String> {
    let p = r.get_packet();
    let x = ex();
    let who = rfc2865::lookup_user_name(p).and_then(|r| r.ok()).unwrap_or_default();
    let h = x.hold.lock().unwrap().clone();
    if let Some(h) = h {
        let k = who.bytes().last().unwrap_or(b'0') as usize;
        for _ in 0..h.yields[k % h.yields.len()] {
            mctokio::task::yield_now().await;
        }
    }
    let mut res = p.make_response_packet(radius::core::code::Code::AccessAccept);
    rfc2865::add_reply_message(&mut res, &format!("hello {who}"));
    rfc2865::add_state(&mut res, &rfc2865::lookup_state(p).unwrap_or_default());
    if let Ok(bs) = res.encode() {
        let _ = conn.send_to(&bs, r.get_remote_addr()).await;
    }
    Ok(())
}

fn start(v6: bool) -> SocketAddr {
    let host = if v6 { "[::1]" } else { "127.0.0.1" };
    let mut srv = match mcrt::drive(Server::listen(host, 1812, Echo, Secrets)) {
        mcrt::Ended::Value(Ok(s)) => s,
        _ => panic!("cannot listen"),
    };
    srv.set_buffer_size(4096);
    let addr = srv.get_listen_address().expect("listen address");
    mctokio::spawn(async move {
        let _ = srv.run(std::future::pending::<()>()).await;
    });
    addr
}

type Got = Arc<Mutex<Option<Result<Packet, String>>>>;
fn call(c: &Arc<Client>, to: SocketAddr, p: Packet) -> Got {
    let g: Got = Arc::default();
    let (c, g2) = (c.clone(), g.clone());
    mctokio::spawn(async move {
        let r = c.send_packet(&to, &p).await.map_err(|e| format!("{e:?}"));
        *g2.lock().unwrap() = Some(r);
    });
    g
}

/// one exchange: every attribute, every sample value, request and response types
fn values(thorough: bool) -> Scenario {
    let t = attrs();
    let combos: Vec<(u8, u8)> = if thorough { REQ.iter().flat_map(|q| RESP.iter().map(move |s| (*q, *s))).collect() } else { (0..8).map(|i| (REQ[i % 5], RESP[i])).collect() };
    Scenario::new(
        "values",
        format!("{} attributes x sample values x {} pairs of request and response type x IPv4/IPv6: two values each way, between other attributes", t.len(), combos.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let t = attrs();
            let k = choose(t.len());
            let (_, smp) = &t[k];
            let i = choose(smp.len());
            let (req, resp) = combos[choose(combos.len())];
            let v6 = if thorough { choose(2) == 1 } else { (k + i) % 2 == 1 };
            let n = smp.len();
            let id = (k * 7 + i * 31 + req as usize) as u8;
            let plan = Plan { attr: k, vals: vec![smp[i].clone(), smp[(i + 1) % n].clone()], req, resp, back: vec![smp[(i + 2) % n].clone(), smp[i].clone()], id };
            one(t, plan, v6);
        },
    )
}

/// one exchange
fn one(t: &[(A, Vec<Val>)], plan: Plan, v6: bool) {
    let (a, req, resp, id) = (&t[plan.attr].0, plan.req, plan.resp, plan.id);
    let x = ex();
    *x.plan.lock().unwrap() = Some(plan.clone());
    let to = start(v6);
    let mut p = Packet::new_with_identifier(code(req), SECRET, id);
    let d = || format!("{} {:?}, request type {req}, response type {resp} with {:?}", a.name, plan.vals, plan.back);
    if let Err(e) = fill(&mut p, a, &plan.vals, req) {
        return fail(format!("{}: cannot be put into the request: {e}", d()));
    }
    *x.sent.lock().unwrap() = by_type(&p);
    let c = Arc::new(Client::new(Some(Duration::from_secs(3)), Some(Duration::from_secs(3))));
    let g = call(&c, to, p);
    mcrt::quiesce();
    if *x.handled.lock().unwrap() != 1 {
        return fail(format!("{}: the handler ran {} times", d(), *x.handled.lock().unwrap()));
    }
    let g = g.lock().unwrap();
    let r = match &*g {
        Some(Ok(r)) => r,
        o => return fail(format!("{}: the call ended with {o:?}", d())),
    };
    if r.get_identifier() != id || r.get_code() != code(resp) || Some(by_type(r)) != *x.back.lock().unwrap() {
        fail(format!("{}: the client got {r:?}", d()));
    }
    if let Err(e) = reads(r, a, &plan.back) {
        // hidden values read with the response's own authenticator?
        let hidden = matches!(a.kind, Kind::UserPw | Kind::TunnelPw);
        let st: Vec<Vec<u8>> = r.lookup_all(a.num).iter().map(|x| x.encode_bytes()).collect();
        let as_known = hidden
            && st.first().is_some_and(|s| match (a.lookup.unwrap()(r), dict::read(a.kind, s, SECRET, r.get_authenticator())) {
                (Some(Ok(x)), Some(Ok(y))) => x == y,
                (Some(Err(_)), Some(Err(_))) => true,
                _ => false,
            });
        if as_known {
            let key = format!("{} in response type {resp}", a.name);
            FOUND.lock().unwrap().entry(key).or_insert_with(|| format!("{}: the client {e}", d()));
        } else {
            fail(format!("{}: the client {e}", d()));
        }
    }
}

/// values that code may treat specially
fn odd_values(thorough: bool) -> Scenario {
    let types: &'static [(u8, u8)] = if thorough { &[(1, 2), (4, 5), (43, 45), (12, 11), (40, 42)] } else { &[(1, 2)] };
    Scenario::new(
        "odd-values",
        format!("all attributes x every single octet or ASCII character, every length, white space, quotes and NULs at either end, texts that normalisation would change, every bit of a number or address; {} pairs of request and response type: one value each way", types.len()),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let t = attrs();
            let k = choose(t.len());
            let odd = odd(k);
            if odd.is_empty() {
                return;
            }
            let i = choose(odd.len());
            let (req, resp) = types[choose(types.len())];
            let id = (k * 7 + i * 31) as u8;
            let plan = Plan { attr: k, vals: vec![odd[i].clone()], req, resp, back: vec![odd[(i + 1) % odd.len()].clone()], id };
            one(t, plan, (k + i) % 2 == 1);
        },
    )
}
fn odd(k: usize) -> &'static Vec<Val> {
    static T: OnceLock<Vec<Vec<Val>>> = OnceLock::new();
    &T.get_or_init(|| attrs().iter().map(|(a, _)| dict::odd(a.kind)).collect())[k]
}

/// the largest packets, both ways
fn sizes() -> Scenario {
    Scenario::new(
        "sizes",
        "request and response of 20 to 4096 octets (steps around multiples of 255 and at the limit)".into(),
        Budget { preemptions: 0, switches: 0, selects: 0, ..Default::default() },
        move || {
            let sizes = [20usize, 22, 25, 273, 274, 275, 276, 277, 1499, 1500, 1501, 2047, 2048, 2049, 4094, 4095, 4096];
            let n = sizes[choose(sizes.len())];
            let (req, resp) = [(1u8, 2u8), (4, 5), (40, 41), (43, 44), (12, 2)][choose(5)];
            let x = ex();
            let to = start(false);
            let fillup = |p: &mut Packet, n: usize| {
                let mut left = n - 20;
                let mut k = 0u8;
                while left > 0 {
                    // leave either nothing or room for another attribute
                    let mut m = left.min(255);
                    if left - m == 1 {
                        m -= 1;
                    }
                    p.add(radius::core::avp::AVP::from_bytes(25, &crate::util::pattern(m - 2, k as u64 + n as u64)));
                    k += 1;
                    left -= m;
                }
            };
            let mut p = Packet::new_with_identifier(code(req), SECRET, 9);
            fillup(&mut p, n);
            *x.sent.lock().unwrap() = by_type(&p);
            *x.plan.lock().unwrap() = None;
            // the handler of this scenario: a raw server task is not needed, the response
            // is made from the request as the server's handler would
            let c = Arc::new(Client::new(None, Some(Duration::from_secs(3))));
            let g = call(&c, to, p.clone());
            mcrt::quiesce();
            if *x.handled.lock().unwrap() != 1 {
                return fail(format!("a request of {n} octets and type {req} was handled {} times", *x.handled.lock().unwrap()));
            }
            if !matches!(&*g.lock().unwrap(), Some(Ok(_))) {
                return fail(format!("a request of {n} octets and type {req} was not answered: {:?}", g.lock().unwrap()));
            }
            // a response of that size
            let far: SocketAddr = "192.0.2.77:1812".parse().unwrap();
            let before = net().sent().len();
            let g = call(&c, far, p.clone());
            mcrt::quiesce();
            let sent = net().sent();
            if sent.len() != before + 1 {
                return fail(format!("{} datagrams sent", sent.len() - before));
            }
            let s = &sent[before];
            let got = Packet::decode(&s.3, SECRET).map(|q| by_type(&q)).ok();
            if got.as_ref() != Some(&by_type(&p)) {
                return fail(format!("a request of {n} octets was sent as {}", hex(&s.3)));
            }
            let Ok(q) = Packet::decode(&s.3, SECRET) else { return };
            let mut r = q.make_response_packet(code(resp));
            fillup(&mut r, n);
            let bs = r.encode().expect("a response within the limit");
            net().deliver(far, s.1, &bs);
            mcrt::quiesce();
            let g = g.lock().unwrap();
            match &*g {
                Some(Ok(k)) if by_type(k) == by_type(&r) && k.get_code() == code(resp) => {}
                o => fail(format!("a response of {n} octets and type {resp}: the call ended with {o:?}")),
            }
        },
    )
}

/// several clients at once, same identifier, responses in any order
fn concurrent(n: usize, preempt: u32, switches: u32) -> Scenario {
    Scenario::new(
        &format!("concurrent-{n}"),
        format!("{n} concurrent exchanges, on one client or several, same or different identifiers, handlers answering in different orders; all interleavings with at most {preempt} preemptions and {switches} other deviations from round-robin"),
        Budget { preemptions: preempt, switches, selects: 0, ..Default::default() },
        move || {
            let one = choose(2) == 1;
            let same = choose(2) == 1;
            let order = choose(n);
            let x = ex();
            *x.hold.lock().unwrap() = Some(Hold { yields: (0..n).map(|i| ((i + order) % n) as u8).collect() });
            mcrt::freeze();
            let to = start(false);
            mcrt::quiesce();
            mcrt::thaw();
            let shared = Arc::new(Client::new(Some(Duration::from_secs(5)), Some(Duration::from_secs(5))));
            let gs: Vec<(Got, Vec<u8>, u8)> = (0..n)
                .map(|i| {
                    let c = if one { shared.clone() } else { Arc::new(Client::new(None, None)) };
                    let id = if same { 5 } else { 5 + i as u8 };
                    let mut p = Packet::new_with_identifier(code([1, 4][i % 2]), SECRET, id);
                    rfc2865::add_user_name(&mut p, &format!("client-{i}"));
                    let st = vec![i as u8 + 1; 3];
                    rfc2865::add_state(&mut p, &st);
                    (call(&c, to, p), st, id)
                })
                .collect();
            mcrt::quiesce();
            for (i, (g, st, id)) in gs.iter().enumerate() {
                let g = g.lock().unwrap();
                match &*g {
                    Some(Ok(r)) => {
                        let msg = rfc2865::lookup_reply_message(r).and_then(|m| m.ok());
                        if msg != Some(format!("hello client-{i}")) || rfc2865::lookup_state(r).as_ref() != Some(st) || r.get_identifier() != *id {
                            fail(format!("call {i} got {msg:?} ({r:?})"));
                        }
                    }
                    o => fail(format!("call {i} ended with {o:?}")),
                }
            }
            if *x.handled.lock().unwrap() != n as u32 {
                fail(format!("{} of {n} requests were handled", *x.handled.lock().unwrap()));
            }
        },
    )
}

pub fn scenarios(t: bool) -> Vec<Scenario> {
    let mut v = vec![values(t), odd_values(t), sizes(), concurrent(2, if t { 3 } else { 1 }, if t { 3 } else { 4 }), concurrent(3, t as u32, if t { 2 } else { 3 })];
    if t {
        v.push(concurrent(4, 0, 2));
    }
    v
}
