use crate::dict::*;
use crate::engine::*;
use crate::model::{self, MPacket};
use crate::util::*;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use std::cell::RefCell;

thread_local! {
    static LOGGED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Cap;
impl log::Log for Cap {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let t = format!("{} {}", r.target(), r.args());
        if KEEP.load(std::sync::atomic::Ordering::Relaxed) {
            LOGGED.with(|l| l.borrow_mut().push(t));
        }
    }
    fn flush(&self) {}
}
/// for C18 every record is kept and searched; elsewhere records are received for part of the cases
pub fn install_logger(keep: bool) {
    log::set_logger(&Cap).unwrap();
    KEEP.store(keep, std::sync::atomic::Ordering::Relaxed);
    if keep {
        log::set_max_level(log::LevelFilter::Trace);
    } else {
        *SET_LOGGING.lock().unwrap() = Some(|on| log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off }));
    }
}
fn logged() -> Vec<String> {
    LOGGED.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// does the text show the secret, in any usual rendering?
pub fn shows(text: &str, secret: &[u8]) -> bool {
    if secret.len() < 4 {
        return false;
    }
    let lower = text.to_lowercase();
    let dec = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
    let decl = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",\n");
    let hx: String = secret.iter().map(|b| format!("{b:02x}")).collect();
    let hxs = secret.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ");
    let hxc = secret.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":");
    let hxl = secret.iter().map(|b| format!("0x{b:02x}")).collect::<Vec<_>>().join(", ");
    let hxn = secret.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(", ");
    let esc: String = secret.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect();
    let txt = String::from_utf8_lossy(secret).to_string();
    let squeezed: String = text.split_whitespace().collect::<Vec<_>>().join("");
    let decs: String = secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
    [txt.as_str(), &esc, &dec, &decl].iter().any(|s| text.contains(s))
        || [hx.as_str(), &hxs, &hxc, &hxl, &hxn].iter().any(|s| lower.contains(s))
        || squeezed.contains(&decs)
}

fn secrets() -> Vec<Vec<u8>> {
    vec![
        b"TopSecret!42".to_vec(),
        b"z".to_vec(),
        vec![],
        vec![0, 1, 2, 3, 250, 251, 252, 253],
        pattern(64, 77),
        b"*redacted*".to_vec(),
        b"TopSecret!43".to_vec(),
        "gehe\u{ef}m-wachtwoord".as_bytes().to_vec(),
    ]
}

pub fn c18(ctx: &Ctx) {
    let secs = secrets();
    let codes: Vec<u8> = [0u8].iter().chain(model::REGISTERED.iter()).copied().collect();
    let lists: Vec<Vec<model::Attr>> = vec![vec![], vec![(1, b"bob".to_vec())], vec![(2, pattern(16, 1)), (26, pattern(30, 2))], vec![(69, pattern(19, 3)), (255, vec![])]];
    ctx.space("debug", "every type x attribute list x pair of secrets x how the packet was made x plain or pretty output: same debug text, secret not in it", 16 * 4 * 8 * 8 * 3 * 2, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&codes);
        let attrs = ix.of(&lists).clone();
        let (s1, s2) = (ix.of(&secs), ix.of(&secs));
        let how = ix.take(3);
        let pretty = ix.take(2) == 1;
        let m = MPacket { code: c, id: (i % 256) as u8, auth: auth16(3), attrs };
        let mk = |s: &[u8]| match how {
            0 => build(&m, s),
            1 => build(&m, s).clone(),
            _ => {
                let mut r = build(&m, s).make_response_packet(Code::AccessAccept);
                r.add(AVP::from_bytes(18, b"hi"));
                r
            }
        };
        let show = |s: &[u8]| if pretty { format!("{:#?}", mk(s)) } else { format!("{:?}", mk(s)) };
        l.ops += 2;
        l.state(H::new().u(i));
        let (a, b) = (show(s1), show(s2));
        l.check(a == b, || format!("debug output depends on the secret: {a} / {b}"));
        l.check(s1 == b"*redacted*" || !shows(&a, s1), || format!("debug output {a} shows the secret"));
        l.note = a.split_whitespace().collect::<Vec<_>>().join(" ");
    });
    // same length of secrets does not matter either: every length
    ctx.space("debug-lengths", "every secret length 0..=200: same debug text", 201, |i, l| {
        let m = MPacket { code: 1, id: 1, auth: auth16(3), attrs: vec![(1, b"bob".to_vec())] };
        l.ops += 2;
        l.state(H::new().u(i).u(5));
        l.check(format!("{:?}", build(&m, &pattern(i as usize, i))) == format!("{:?}", build(&m, b"abc")), || format!("debug output depends on the secret of {i} octets"));
    });
    // errors and log records of decoding, encoding, verifying and all accessors
    let secs: Vec<Vec<u8>> = secs.into_iter().filter(|s| s.len() >= 4 && s != b"*redacted*").collect();
    let ns = secs.len() as u64;
    let chk = |l: &mut Local, what: &str, text: &str, s: &[u8]| {
        l.op();
        l.check(!shows(text, s), || format!("{what} shows the secret: {text}"));
    };
    ctx.space("decode-errors", "every single-octet change of a packet and every truncation x secrets: error text, debug text and log", (60 * 256 + 60) * ns, |i, l| {
        let mut ix = Ix(i);
        let s = ix.of(&secs).clone();
        let k = ix.0;
        let m = MPacket { code: 4, id: 1, auth: auth16(3), attrs: vec![(1, b"bob".to_vec()), (2, pattern(16, 4)), (26, pattern(9, 1))] };
        let mut bs = model::encode(&m, &s).unwrap();
        if k < 60 * 256 {
            let n = bs.len();
            bs[(k / 256) as usize % n] = (k % 256) as u8;
        } else {
            bs.truncate((k - 60 * 256) as usize);
        }
        logged();
        let mut t = match Packet::decode(&bs, &s) {
            Ok(p) => {
                let mut t = format!("{p:?}");
                match p.encode() {
                    Ok(_) => {}
                    Err(e) => t.push_str(&format!("{e} {e:?}")),
                }
                t
            }
            Err(e) => format!("{e} {e:?}"),
        };
        let _ = Packet::is_authentic_request(&bs, &s);
        let _ = Packet::is_authentic_response(&bs, &bs, &s);
        t.push_str(&logged().join("\n"));
        l.state(H::new().b(&bs).b(&s));
        chk(l, "decoding/encoding/verifying", &t, &s);
    });
    let attrs = crate::dict_gen::attrs();
    let raws = raws();
    ctx.space("accessor-errors", "every attribute x raw stored values x secrets: error texts and log of the accessors", attrs.len() as u64 * raws.len() as u64 * ns, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let raw = ix.of(&raws);
        let s = ix.of(&secs);
        let mut p = build(&MPacket { code: 1, id: 1, auth: auth16(3), attrs: vec![] }, s);
        logged();
        p.add(AVP::from_bytes(a.num, raw));
        let mut t = String::new();
        if let Some(lk) = a.lookup {
            if let Some(Err(e)) = lk(&p) {
                t.push_str(&e)
            }
        }
        if let Some(la) = a.lookup_all {
            if let Err(e) = la(&p) {
                t.push_str(&e)
            }
        }
        t.push_str(&format!("{p:?} {:#?}", p));
        t.push_str(&logged().join("\n"));
        l.state(H::new().u(a.num as u64).b(raw).b(s));
        chk(l, a.name, &t, s);
    });
    ctx.space("encode-errors", "over-long values, over-long packets, unsendable types, over-long passwords x secrets: error texts and log", 16 * 5 * ns, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&codes);
        let k = ix.take(5);
        let s = ix.of(&secs);
        logged();
        let mut m = MPacket { code: c, id: 1, auth: auth16(3), attrs: vec![] };
        match k {
            1 => m.attrs.push((1, vec![1; 254])),
            2 => m.attrs = vec![(1, vec![1; 253]); 17],
            3 => m.attrs = vec![(1, vec![1; 253]); 300],
            _ => {}
        }
        let mut p = build(&m, s);
        let mut t = String::new();
        if k == 4 {
            for r in [radius::core::rfc2865::add_user_password(&mut p, &[65; 129]), radius::core::rfc2868::add_tunnel_password(&mut p, None, &[65; 250])] {
                if let Err(e) = r {
                    t.push_str(&format!("{e} {e:?}"))
                }
            }
        }
        if let Err(e) = p.encode() {
            t.push_str(&format!("{e} {e:?}"))
        }
        t.push_str(&logged().join("\n"));
        l.state(H::new().u(i).u(9));
        chk(l, "encoding", &t, s);
    });
}

/// outcome of everything that touches the hash, for the comparison of the back ends
pub fn c16(ctx: &Ctx) {
    crate::packet_props::c04(ctx);
    crate::packet_props::c05(ctx);
    crate::avp_props::c06(ctx);
    crate::avp_props::c07(ctx);
}

/// Everything this build produces, as records (kind, secret, authenticator or request, bytes).
pub fn produce(thorough: bool) -> Vec<[Vec<u8>; 4]> {
    let mut v = vec![];
    let secrets: Vec<Vec<u8>> = [1usize, 9, 64].iter().map(|n| pattern(*n, 5)).collect();
    let step = if thorough { 1 } else { 3 };
    for s in &secrets {
        for seed in 0..3u64 {
            let a = auth16(seed);
            for n in (0..=128usize).step_by(step) {
                if let Ok(x) = AVP::from_user_password(2, &pattern(n, seed), s, &a) {
                    v.push([vec![1], s.clone(), a.to_vec(), x.encode_bytes()]);
                }
            }
            for n in (0..=240usize).step_by(step) {
                for t in [None, Some(1u8), Some(0x1f)] {
                    if let Ok(x) = AVP::from_tunnel_password(69, t.map(radius::core::tag::Tag::new).as_ref(), &pattern(n, seed), s, &a) {
                        v.push([vec![2], s.clone(), a.to_vec(), x.encode_bytes()]);
                    }
                }
            }
            for c in model::REGISTERED {
                for k in 0..6usize {
                    let attrs = (0..k).map(|j| (1 + j as u8 * 7, pattern((j * 50) % 254, seed))).collect();
                    let m = MPacket { code: c, id: seed as u8, auth: a, attrs };
                    let req = model::encode(&MPacket { code: 1, id: seed as u8, auth: a, attrs: vec![] }, s).unwrap();
                    if let Ok(e) = build(&m, s).encode() {
                        v.push([vec![3], s.clone(), req, e]);
                    }
                }
            }
        }
    }
    v
}

/// What this build makes of them.
pub fn consume(recs: &[[Vec<u8>; 4]]) -> Vec<String> {
    recs.iter()
        .map(|[k, s, a, b]| {
            no_panic(|| match k[0] {
                1 => format!("{:?}", AVP::from_bytes(2, b).encode_user_password(s, a).ok()),
                2 => format!("{:?}", AVP::from_bytes(69, b).encode_tunnel_password(s, a).ok().map(|(p, t)| (p, t.get_value()))),
                _ => format!("{} {} {:?}", Packet::is_authentic_request(b, s), Packet::is_authentic_response(b, a, s), Packet::decode(b, s).ok()),
            })
            .unwrap_or_else(|p| format!("panic: {p}"))
        })
        .collect()
}

pub fn c17(ctx: &Ctx) {
    // library with its own random generator; the exhaustive part runs on the shim build
    let codes: Vec<u8> = [0u8].iter().chain(model::REGISTERED.iter()).copied().collect();
    ctx.space("identifiers", "every type x every identifier, asked for and set", 16 * 256 * 256, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&codes);
        let id = ix.take(256) as u8;
        let id2 = ix.take(256) as u8;
        if id2 % 16 != 0 && id2 != 255 && id2 != id && id2 != id.wrapping_add(1) {
            return;
        }
        l.ops += 2;
        l.state(H::new().u(c as u64).u(id as u64).u(id2 as u64));
        let s = [&b""[..], b"s", b"long secret"][(i % 3) as usize];
        let mut p = Packet::new_with_identifier(code(c), s, id);
        l.check(p.get_identifier() == id, || format!("identifier {} instead of {id}", p.get_identifier()));
        l.check(p.get_code() == code(c) && p.get_secret() == s, || "type or secret differs".into());
        l.check(p.get_authenticator().len() == 16, || format!("authenticator of {} octets", p.get_authenticator().len()));
        l.check(by_type(&p).is_empty(), || "a new packet has attributes".into());
        p.add(AVP::from_bytes(7, b"x"));
        let auth = p.get_authenticator().clone();
        p.set_identifier(id2);
        l.check(
            p.get_identifier() == id2 && p.get_authenticator() == &auth && p.get_code() == code(c) && p.get_secret() == s && by_type(&p) == vec![(7, vec![b"x".to_vec()])],
            || format!("set_identifier({id2}) changed something else"),
        );
        if l.want_detail {
            l.note = format!("code {c} identifier {id} then {id2}");
        }
    });
    ctx.space("distinct", "blocks of 400 packets: no authenticator repeats, every octet position varies, identifiers vary", 64, |i, l| {
        let mut seen = std::collections::HashSet::new();
        let mut vals = vec![std::collections::HashSet::new(); 17];
        for k in 0..400 {
            let p = Packet::new(code(codes[(k % 16) as usize]), b"s");
            l.op();
            l.check(by_type(&p).is_empty() || k > 3, || "a new packet has attributes".into());
            for (j, b) in p.get_authenticator().iter().take(16).enumerate() {
                vals[j].insert(*b);
            }
            vals[16].insert(p.get_identifier());
            l.check(seen.insert(p.get_authenticator().clone()), || "an authenticator repeats".into());
        }
        l.state(H::new().u(i).u(3));
        // 400 uniform draws from 256 values show at least 100 values except with probability < 2^-100
        for (j, v) in vals.iter().enumerate() {
            l.check(v.len() >= 100, || format!("{} takes only {} values in 400 packets", if j == 16 { "the identifier".into() } else { format!("authenticator octet {j}") }, v.len()));
        }
    });
    // octets independent of each other: no pair of positions always equal
    ctx.space("independent", "blocks of 200 packets: no two of the 17 random octets are always equal or have a constant difference", 16, |_, l| {
        let ps: Vec<Vec<u8>> = (0..200)
            .map(|_| {
                let p = Packet::new(Code::AccessRequest, b"s");
                l.op();
                let mut v = p.get_authenticator().clone();
                v.push(p.get_identifier());
                v
            })
            .collect();
        for a in 0..17 {
            for b in 0..a {
                let d: std::collections::HashSet<u8> = ps.iter().filter(|p| p.len() == 17).map(|p| p[a].wrapping_sub(p[b])).collect();
                let x: std::collections::HashSet<u8> = ps.iter().filter(|p| p.len() == 17).map(|p| p[a] ^ p[b]).collect();
                l.check(d.len() > 20 && x.len() > 20, || format!("octets {a} and {b} are related"));
            }
        }
        // consecutive packets are unrelated as well
        for a in 0..17 {
            let d: std::collections::HashSet<u8> = ps.windows(2).map(|w| w[1][a].wrapping_sub(w[0][a])).collect();
            l.check(d.len() > 20, || format!("octet {a} advances by a fixed step"));
        }
    });
}
