use crate::dict::{mkdate, read, write, Kind, Val};
use crate::engine::*;
use crate::model;
use crate::util::*;
use radius::core::avp::AVP;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use std::net::{Ipv4Addr, Ipv6Addr};

fn tag(t: u8) -> Tag {
    Tag::new(t)
}

fn user_pw(l: &mut Local, pw: &[u8], secret: &[u8], auth: &[u8]) {
    let want = write(Kind::UserPw, &Val::Bytes(pw.to_vec()), secret, auth);
    l.op();
    let got = AVP::from_user_password(2, pw, secret, auth);
    l.state(H::new().b(pw).b(secret).b(auth));
    let d = || format!("password {} secret {} authenticator {}", hex(pw), hex(secret), hex(auth));
    match (&got, &want) {
        (Ok(a), Ok(w)) => {
            let s = a.encode_bytes();
            l.result(H::new().b(&s));
            l.check(s == *w, || format!("{}: stored as {} instead of {}", d(), hex(&s), hex(w)));
            l.op();
            let r = a.encode_user_password(secret, auth);
            match r {
                Ok(p) => l.check(p == model::rtrim0(pw) || p == pw, || format!("{}: read back as {}", d(), hex(&p))),
                Err(e) => l.fail(format!("{}: not readable: {e:?}", d())),
            }
        }
        (Err(_), Err(_)) => l.result(H::new().u(1)),
        (Ok(_), Err(_)) => l.fail(format!("{}: accepted", d())),
        (Err(e), Ok(_)) => l.fail(format!("{}: refused: {e:?}", d())),
    }
    if l.want_detail {
        l.note = format!("{} -> {}", d(), got.map_or("error".into(), |a| hex(&a.encode_bytes())));
    }
}

fn read_user_pw(l: &mut Local, stored: &[u8], secret: &[u8], auth: &[u8]) {
    l.op();
    l.state(H::new().b(stored).b(secret).b(auth));
    let got = AVP::from_bytes(2, stored).encode_user_password(secret, auth);
    l.result(match &got {
        Ok(v) => H::new().b(v),
        Err(_) => H::new(),
    });
    match read(Kind::UserPw, stored, secret, auth) {
        None => {}
        Some(Ok(Val::Bytes(w))) => l.check(got.as_ref().ok().map(|g| model::rtrim0(g)) == Some(&w[..]), || format!("stored {} secret {} authenticator {} read as {got:?}", hex(stored), hex(secret), hex(auth))),
        Some(_) => l.check(got.is_err(), || format!("stored {} secret {} authenticator {} read as {got:?}, must be an error", hex(stored), hex(secret), hex(auth))),
    }
}

const SECRET_LENS: [usize; 14] = [1, 2, 6, 15, 16, 17, 31, 32, 39, 40, 41, 63, 64, 128];

pub fn c06(ctx: &Ctx) {
    let fills: [fn(usize) -> Vec<u8>; 4] = [|n| pattern(n, 5).iter().map(|b| b | 1).collect(), |n| vec![0; n], |n| vec![0xff; n], |n| (0..n).map(|i| b'a' + (i % 26) as u8).collect()];
    ctx.space("lengths", "every password length 0..=300 x 4 fillings x 14 secret lengths x 3 authenticators", 301 * 4 * 14 * 3, |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(301) as usize;
        let pw = ix.of(&fills)(n);
        let s = pattern(*ix.of(&SECRET_LENS), i);
        let a = [[0u8; 16], [0xff; 16], auth16(i)][ix.take(3) as usize];
        user_pw(l, &pw, &s, &a);
    });
    for n in [1usize, 15, 16, 17, 32, 33, 128] {
        ctx.space(&format!("octets-{n}"), "every value at every position of a password of this length", n as u64 * 256, |i, l| {
            let mut pw = vec![0x61; n];
            pw[(i / 256) as usize] = (i % 256) as u8;
            user_pw(l, &pw, b"secret", &auth16(1));
        });
    }
    for n in [17usize, 20, 32, 33, 48] {
        ctx.space(&format!("nul-pairs-{n}"), "zero octets at every pair of positions, and every zero run", (n * n) as u64 * 2, |i, l| {
            let mut ix = Ix(i);
            let a = ix.take(n as u64) as usize;
            let b = ix.take(n as u64) as usize;
            let mut pw: Vec<u8> = (0..n).map(|k| 0x41 + (k % 26) as u8).collect();
            if ix.take(2) == 0 {
                pw[a] = 0;
                pw[b] = 0;
            } else {
                for k in a.min(b)..=a.max(b) {
                    pw[k] = 0
                }
            }
            user_pw(l, &pw, b"secret", &auth16(2));
        });
    }
    ctx.space("nul-subsets", "every subset of zero octets in passwords of 1..=12 octets", (1..=12).map(|n| 1u64 << n).sum(), |mut i, l| {
        let mut n = 1;
        while i >= 1 << n {
            i -= 1 << n;
            n += 1;
        }
        let pw: Vec<u8> = (0..n).map(|k| if i >> k & 1 == 1 { 0 } else { 0x41 + k as u8 }).collect();
        user_pw(l, &pw, b"s", &auth16(3));
    });
    ctx.space("secrets", "every secret length 0..=300 x password lengths 0,5,16,40,128,129", 301 * 6, |i, l| {
        let mut ix = Ix(i);
        let s = pattern(ix.take(301) as usize, 2);
        let pw = fills[3]([0usize, 5, 16, 40, 128, 129][ix.take(6) as usize]);
        user_pw(l, &pw, &s, &auth16(4));
    });
    ctx.space("auth-lengths", "every authenticator length 0..=64 x password lengths x empty/non-empty secret, written and read", 65 * 6 * 2, |i, l| {
        let mut ix = Ix(i);
        let a = pattern(ix.take(65) as usize, 2);
        let pw = fills[3]([0usize, 5, 16, 40, 128, 129][ix.take(6) as usize]);
        let s: &[u8] = if ix.take(2) == 0 { b"" } else { b"secret" };
        user_pw(l, &pw, s, &a);
        read_user_pw(l, &model::hide(&model::pad16(&pw), b"secret", &a), s, &a);
    });
    ctx.space("auth-octets", "every value of every authenticator octet", 16 * 256, |i, l| {
        let mut a = auth16(9);
        a[(i / 256) as usize] = (i % 256) as u8;
        user_pw(l, b"correct horse battery staple", b"secret", &a);
    });
    let (odd, auths) = (odd_secrets(), odd_auths());
    ctx.space("odd-secrets", "secrets with every octet value alone, repeated, first, in the middle and last x 3 passwords and the secret itself as password", odd.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let s = ix.of(&odd);
        let pw = match ix.take(4) {
            3 => s.clone(),
            k => fills[3]([3usize, 16, 40][k as usize]),
        };
        user_pw(l, &pw, s, &auth16(10));
    });
    ctx.space("odd-authenticators", "authenticators of one octet value or with runs of zero octets x 3 passwords and the authenticator itself as password", auths.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&auths);
        let pw = match ix.take(4) {
            3 => a.to_vec(),
            k => fills[3]([3usize, 16, 40][k as usize]),
        };
        user_pw(l, &pw, b"secret", a);
    });
    ctx.space("one-octet-repeated", "every octet value repeated 1..=128 times", 256 * 128, |i, l| {
        user_pw(l, &vec![(i >> 7) as u8; (i & 127) as usize + 1], b"secret", &auth16(11));
    });
    ctx.space("stored", "reading stored values of every length 0..=260 x 4 fillings x secrets (incl. empty)", 261 * 4 * 4, |i, l| {
        let mut ix = Ix(i);
        let st = ix.take(261) as usize;
        let st = ix.of(&fills)(st);
        let s = [&b""[..], b"x", b"secret", b"0123456789abcdef0"][ix.take(4) as usize];
        read_user_pw(l, &st, s, &auth16(5));
    });
    ctx.space("stored-octets", "reading a genuine 32-octet value with each octet replaced by each value", 32 * 256, |i, l| {
        let mut st = model::hide(&model::pad16(b"open sesame, long enough"), b"secret", &auth16(6));
        st[(i / 256) as usize] = (i % 256) as u8;
        read_user_pw(l, &st, b"secret", &auth16(6));
    });
    ctx.space("accessor", "User-Password accessors: every password length 0..=130 x request types, after a round trip where the authenticator is kept", 131 * 2, |i, l| {
        let n = (i / 2) as usize;
        let c = [1u8, 12][(i % 2) as usize];
        let pw = fills[0](n);
        let m = model::MPacket { code: c, id: 5, auth: auth16(i), attrs: vec![] };
        let mut p = build(&m, b"sharedsecret");
        l.op();
        let r = radius::core::rfc2865::add_user_password(&mut p, &pw);
        l.check(r.is_ok() == (n <= 128), || format!("add_user_password of {n} octets: {r:?}"));
        if n <= 128 {
            let want = model::hide(&model::pad16(&pw), b"sharedsecret", &m.auth);
            l.check(p.lookup(2).map(|a| a.encode_bytes()) == Some(want), || format!("stored value for {} is wrong", hex(&pw)));
            let e = p.encode().unwrap_or_default();
            l.ops += 2;
            match radius::core::packet::Packet::decode(&e, b"sharedsecret") {
                Ok(q) => {
                    let g = radius::core::rfc2865::lookup_user_password(&q);
                    l.check(matches!(&g, Some(Ok(v)) if *v == pw), || format!("{} read back as {g:?}", hex(&pw)));
                }
                Err(e) => l.fail(format!("{e:?}")),
            }
        } else {
            l.check(p.lookup(2).is_none(), || "a refused password was added".into());
        }
        l.state(H::new().b(&pw).u(c as u64));
    });
    if ctx.thorough {
        ctx.space("two-octets", "every password of two octets", 65536, |i, l| user_pw(l, &[i as u8, (i >> 8) as u8], b"secret", &auth16(8)));
        ctx.space("three-octets", "every password of three octets over 64 values", 64 * 64 * 64, |i, l| {
            let mut ix = Ix(i);
            let pw = [ix.take(64) as u8 * 4, ix.take(64) as u8 * 4 + 1, ix.take(64) as u8 * 4];
            user_pw(l, &pw, b"secret", &auth16(8))
        });
        ctx.space("secret-octets", "every value pair of a two-octet secret x 3 passwords", 65536 * 3, |i, l| {
            let mut ix = Ix(i);
            let s = [ix.take(256) as u8, ix.take(256) as u8];
            user_pw(l, &pattern([3usize, 16, 40][ix.take(3) as usize], 1), &s, &auth16(8))
        });
        ctx.space("lengths-secrets", "every password length 0..=130 x every secret length 1..=130", 131 * 130, |i, l| {
            let mut ix = Ix(i);
            let pw = pattern(ix.take(131) as usize, i);
            user_pw(l, &pw, &pattern(1 + ix.take(130) as usize, i), &auth16(i))
        });
    }
}

fn tunnel_pw(l: &mut Local, t: Option<u8>, pw: &[u8], secret: &[u8], auth: &[u8]) {
    l.op();
    let got = AVP::from_tunnel_password(69, t.map(tag).as_ref(), pw, secret, auth);
    l.state(H::new().b(pw).b(secret).b(auth).u(t.map_or(300, |t| t as u64)));
    let bad = pw.len() > 240 || secret.is_empty() || auth.len() != 16;
    let d = || format!("tag {t:?} password {} secret {} authenticator {}", hex(pw), hex(secret), hex(auth));
    match got {
        Err(e) => {
            l.result(H::new());
            l.check(bad, || format!("{}: refused: {e:?}", d()))
        }
        Ok(_) if bad => l.fail(format!("{}: accepted", d())),
        Ok(a) => {
            let s = a.encode_bytes();
            l.result(H::new().u(s.len() as u64));
            if s.len() < 19 || s.len() % 16 != 3 {
                return l.fail(format!("{}: stored as {}", d(), hex(&s)));
            }
            l.check(s[0] == t.unwrap_or(0), || format!("{}: tag octet {}", d(), s[0]));
            l.check(s[1] & 0x80 != 0, || format!("{}: salt {}", d(), hex(&s[1..3])));
            let w = model::hide(&model::pad16(pw), secret, &[auth, &s[1..3]].concat());
            l.result(H::new().u(s.len() as u64).u((s[3..] == w[..]) as u64).u(s[1] as u64 >> 7));
            l.check(s[3..] == w[..], || format!("{}: stored as {}, hidden part must be {}", d(), hex(&s), hex(&w)));
            l.op();
            match a.encode_tunnel_password(secret, auth) {
                Ok((p, tg)) => l.check((p == model::rtrim0(pw) || p == pw) && tg.get_value() == t.unwrap_or(0), || format!("{}: read back as {} tag {}", d(), hex(&p), tg.get_value())),
                Err(e) => l.fail(format!("{}: not readable: {e:?}", d())),
            }
            if l.want_detail {
                l.note = format!("{} -> {}", d(), hex(&s));
            }
        }
    }
}

fn read_tunnel_pw(l: &mut Local, stored: &[u8], secret: &[u8], auth: &[u8]) {
    l.op();
    l.state(H::new().b(stored).b(secret).b(auth));
    let got = AVP::from_bytes(69, stored).encode_tunnel_password(secret, auth);
    l.result(match &got {
        Ok((v, t)) => H::new().b(v).u(t.get_value() as u64),
        Err(_) => H::new(),
    });
    match read(Kind::TunnelPw, stored, secret, auth) {
        Some(Ok(Val::TBytes(t, w))) => l.check(
            got.as_ref().ok().map(|g| (model::rtrim0(&g.0).to_vec(), g.1.get_value())) == Some((w, t)),
            || format!("stored {} secret {} authenticator {} read as {got:?}", hex(stored), hex(secret), hex(auth)),
        ),
        _ => l.check(got.is_err(), || format!("stored {} secret {} authenticator {} read as {got:?}, must be an error", hex(stored), hex(secret), hex(auth))),
    }
}

pub fn c07(ctx: &Ctx) {
    let fills: [fn(usize) -> Vec<u8>; 4] = [|n| pattern(n, 5).iter().map(|b| b | 1).collect(), |n| vec![0; n], |n| vec![0xff; n], |n| (0..n).map(|i| b'a' + (i % 26) as u8).collect()];
    ctx.space("lengths", "every password length 0..=300 x 4 fillings x 14 secret lengths x tag none/0/1/0x1f", 301 * 4 * 14 * 4, |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(301) as usize;
        let pw = ix.of(&fills)(n);
        let s = pattern(*ix.of(&SECRET_LENS), i);
        let t = [None, Some(0), Some(1), Some(0x1f)][ix.take(4) as usize];
        tunnel_pw(l, t, &pw, &s, &auth16(i));
    });
    ctx.space("tags", "every tag octet x 6 password lengths", 257 * 6, |i, l| {
        let mut ix = Ix(i);
        let t = ix.take(257);
        let n = [0usize, 1, 16, 17, 100, 240][ix.take(6) as usize];
        tunnel_pw(l, if t == 256 { None } else { Some(t as u8) }, &fills[3](n), b"secret", &auth16(1));
    });
    ctx.space("salts", "reading with every salt (65536) x 3 password lengths: top bit decides", 65536 * 3, |i, l| {
        let mut ix = Ix(i);
        let salt = [ix.take(256) as u8, ix.take(256) as u8];
        let n = [3usize, 16, 40][ix.take(3) as usize];
        let a = auth16(3);
        let mut st = vec![(i % 33) as u8, salt[0], salt[1]];
        st.extend(model::hide(&model::pad16(&fills[0](n)), b"secret", &[&a[..], &salt].concat()));
        read_tunnel_pw(l, &st, b"secret", &a);
    });
    ctx.space("salt-drawn", "4096 freshly drawn salts have the top bit set and the value reads back", 4096, |i, l| tunnel_pw(l, Some(1), &fills[3]((i % 241) as usize), b"secret", &auth16(i)));
    for n in [1usize, 15, 16, 17, 32, 239, 240] {
        ctx.space(&format!("octets-{n}"), "every value at every position of a password of this length", n as u64 * 256, |i, l| {
            let mut pw = vec![0x61; n];
            pw[(i / 256) as usize] = (i % 256) as u8;
            tunnel_pw(l, Some(2), &pw, b"secret", &auth16(1));
        });
    }
    for n in [17usize, 20, 32, 33, 48] {
        ctx.space(&format!("nul-pairs-{n}"), "zero octets at every pair of positions, and every zero run", (n * n) as u64 * 2, |i, l| {
            let mut ix = Ix(i);
            let a = ix.take(n as u64) as usize;
            let b = ix.take(n as u64) as usize;
            let mut pw: Vec<u8> = (0..n).map(|k| 0x41 + (k % 26) as u8).collect();
            if ix.take(2) == 0 {
                pw[a] = 0;
                pw[b] = 0;
            } else {
                for k in a.min(b)..=a.max(b) {
                    pw[k] = 0
                }
            }
            tunnel_pw(l, Some(3), &pw, b"secret", &auth16(2));
        });
    }
    ctx.space("secrets-auths", "every secret length 0..=200 and every authenticator length 0..=64 (also above 240) x password lengths, written and read", (201 + 66) * 5, |i, l| {
        let mut ix = Ix(i);
        let k = ix.take(201 + 66) as usize;
        let pw = fills[3]([0usize, 5, 40, 240, 241][ix.take(5) as usize]);
        let (s, a) = if k <= 200 { (pattern(k, 2), auth16(2).to_vec()) } else { (b"secret".to_vec(), pattern(if k == 266 { 300 } else { k - 201 }, 3)) };
        tunnel_pw(l, Some(1), &pw, &s, &a);
        let mut st = vec![1, 0x80, 7];
        st.extend(model::hide(&model::pad16(&pw[..pw.len().min(240)]), b"secret", &auth16(2)));
        read_tunnel_pw(l, &st, &s, &a);
    });
    let (odd, auths) = (odd_secrets(), odd_auths());
    ctx.space("odd-secrets", "secrets with every octet value alone, repeated, first, in the middle and last x 3 passwords and the secret itself as password", odd.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let s = ix.of(&odd);
        let pw = match ix.take(4) {
            3 => s.clone(),
            k => fills[3]([3usize, 16, 40][k as usize]),
        };
        tunnel_pw(l, Some(i as u8 % 32), &pw, s, &auth16(10));
    });
    ctx.space("odd-authenticators", "authenticators of one octet value or with runs of zero octets x 3 passwords and the authenticator itself as password", auths.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&auths);
        let pw = match ix.take(4) {
            3 => a.to_vec(),
            k => fills[3]([3usize, 16, 40][k as usize]),
        };
        tunnel_pw(l, None, &pw, b"secret", a);
    });
    ctx.space("auth-octets", "every value of every authenticator octet", 16 * 256, |i, l| {
        let mut a = auth16(9);
        a[(i / 256) as usize] = (i % 256) as u8;
        tunnel_pw(l, Some(1), b"correct horse battery staple", b"secret", &a);
    });
    ctx.space("one-octet-repeated", "every octet value repeated 1..=240 times", 256 * 240, |i, l| {
        tunnel_pw(l, Some(4), &vec![(i / 240) as u8; (i % 240) as usize + 1], b"secret", &auth16(11));
    });
    ctx.space("stored", "reading stored values of every length 0..=300 x 4 fillings x salt bit x secrets", 301 * 4 * 2 * 3, |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(301) as usize;
        let mut st = ix.of(&fills)(n);
        let sb = ix.take(2) as u8;
        if n > 1 {
            st[1] = st[1] & 0x7f | sb << 7;
        }
        let s = [&b""[..], b"x", b"secret"][ix.take(3) as usize];
        read_tunnel_pw(l, &st, s, &auth16(5));
    });
    ctx.space("stored-octets", "reading a genuine 35-octet value with each octet replaced by each value", 35 * 256, |i, l| {
        let a = auth16(6);
        let mut st = vec![1, 0x80, 7];
        st.extend(model::hide(&model::pad16(b"open sesame, long enough"), b"secret", &[&a[..], &[0x80, 7]].concat()));
        st[(i / 256) as usize] = (i % 256) as u8;
        read_tunnel_pw(l, &st, b"secret", &a);
    });
    ctx.space("accessor", "Tunnel-Password accessors: every length 0..=242 x tags, after a round trip of an Access-Request", 243 * 3, |i, l| {
        use radius::core::rfc2868 as r;
        let n = (i / 3) as usize;
        let t = [None, Some(1u8), Some(0x1f)][(i % 3) as usize];
        let pw = fills[0](n);
        let m = model::MPacket { code: 1, id: 5, auth: auth16(i), attrs: vec![] };
        let mut p = build(&m, b"sharedsecret");
        l.op();
        let a = r::add_tunnel_password(&mut p, t.map(tag).as_ref(), &pw);
        l.check(a.is_ok() == (n <= 240), || format!("add_tunnel_password of {n} octets: {a:?}"));
        l.state(H::new().b(&pw).u(i % 3));
        if n <= 240 {
            l.ops += 3;
            let e = p.encode().unwrap_or_default();
            match radius::core::packet::Packet::decode(&e, b"sharedsecret") {
                Ok(q) => {
                    for g in [r::lookup_tunnel_password(&q), r::lookup_all_tunnel_password(&q).map(|mut v| if v.len() == 1 { v.pop() } else { None }).transpose()] {
                        l.check(matches!(&g, Some(Ok((v, tg))) if *v == pw && tg.get_value() == t.unwrap_or(0)), || format!("{} read back as {g:?}", hex(&pw)));
                    }
                }
                Err(e) => l.fail(format!("{e:?}")),
            }
        } else {
            l.check(p.lookup(69).is_none(), || "a refused password was added".into());
        }
    });
    if ctx.thorough {
        ctx.space("salts-full", "every salt x every multiple-of-16 stored length", 65536 * 15, |i, l| {
            let mut ix = Ix(i);
            let salt = [ix.take(256) as u8, ix.take(256) as u8];
            let n = 16 * (1 + ix.take(15) as usize);
            let a = auth16(3);
            let mut st = vec![(i % 256) as u8, salt[0], salt[1]];
            st.extend(pattern(n, i));
            read_tunnel_pw(l, &st, b"secret", &a);
        });
        ctx.space("lengths-secrets", "every password length 0..=241 x every secret length 1..=130", 242 * 130, |i, l| {
            let mut ix = Ix(i);
            let pw = pattern(ix.take(242) as usize, i);
            tunnel_pw(l, Some((i % 256) as u8), &pw, &pattern(1 + ix.take(130) as usize, i), &auth16(i))
        });
    }
}

/// write with the library, compare octets, read back directly and over the wire
fn typed(l: &mut Local, kind: Kind, v: &Val) {
    let t = 77u8;
    l.op();
    let got: Result<AVP, String> = match (kind, v) {
        (Kind::Integer, Val::U32(x)) => Ok(AVP::from_u32(t, *x)),
        (Kind::Short, Val::U16(x)) => Ok(AVP::from_u16(t, *x)),
        (Kind::String, Val::Str(s)) => Ok(AVP::from_string(t, s)),
        (Kind::Octets, Val::Bytes(b)) => Ok(AVP::from_bytes(t, b)),
        (Kind::Ipv4, Val::V4(a)) => Ok(AVP::from_ipv4(t, &Ipv4Addr::from(*a))),
        (Kind::Ipv6, Val::V6(a)) => Ok(AVP::from_ipv6(t, &Ipv6Addr::from(*a))),
        (Kind::Ipv4Prefix, Val::Bytes(b)) => AVP::from_ipv4_prefix(t, b).map_err(|e| format!("{e:?}")),
        (Kind::Ipv6Prefix, Val::Bytes(b)) => AVP::from_ipv6_prefix(t, b).map_err(|e| format!("{e:?}")),
        (Kind::Date, Val::Date(s)) => Ok(AVP::from_date(t, &mkdate(*s))),
        (Kind::TInteger, Val::TU32(g, x)) => Ok(AVP::from_tagged_u32(t, Some(&tag(*g)), *x)),
        (Kind::TString, Val::TStr(g, s)) => Ok(AVP::from_tagged_string(t, g.map(tag).as_ref(), s)),
        _ => panic!("harness: kind"),
    };
    match (got, write(kind, v, b"", b"")) {
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => l.fail(format!("{kind:?} {v:?}: accepted")),
        (Err(e), Ok(_)) => l.fail(format!("{kind:?} {v:?}: refused: {e}")),
        (Ok(a), Ok(w)) => {
            let s = a.encode_bytes();
            l.check(s == w, || format!("{kind:?} {v:?}: stored as {} instead of {}", hex(&s), hex(&w)));
            l.op();
            let back = reading(kind, &a);
            let want = read(kind, &w, b"", b"").unwrap();
            match &want {
                Ok(w) => l.check(back.as_ref() == Ok(w), || format!("{kind:?} {v:?}: read back as {back:?}")),
                Err(_) => l.check(back.is_err(), || format!("{kind:?} {v:?}: read back as {back:?}")),
            }
        }
    }
}

/// the same after encode and decode of the whole packet
fn typed_wire(l: &mut Local, kind: Kind, v: &Val) {
    typed(l, kind, v);
    let Ok(w) = write(kind, v, b"", b"") else { return };
    if w.len() > 253 {
        return;
    }
    let a = AVP::from_bytes(77, &w);
    l.op();
    match wire_of(a) {
        Ok((t, s)) => {
            l.check(t == 77 && s == w, || format!("{kind:?} {v:?}: on the wire {t} {}", hex(&s)));
            let mut p = radius::core::packet::Packet::new(radius::core::code::Code::AccessRequest, b"s");
            p.add(AVP::from_bytes(1, b"x"));
            p.add(AVP::from_bytes(77, &w));
            p.add(AVP::from_bytes(78, b""));
            let e = p.encode().unwrap_or_default();
            match radius::core::packet::Packet::decode(&e, b"s") {
                Ok(q) => {
                    let got = q.lookup(77).map(|a| reading(kind, a));
                    if let Some(Ok(want)) = read(kind, &w, b"", b"") {
                        l.check(matches!(&got, Some(Ok(g)) if *g == want), || format!("{kind:?} {v:?}: after the wire {got:?}"));
                    }
                }
                Err(e) => l.fail(format!("{e:?}")),
            }
        }
        Err(e) => l.fail(e),
    }
    if l.want_detail {
        l.note = format!("{kind:?} {v:?} stored as {}", hex(&w));
    }
}

fn reading(kind: Kind, a: &AVP) -> Result<Val, String> {
    let e = |e: radius::core::avp::AVPError| format!("{e:?}");
    match kind {
        Kind::Integer => a.encode_u32().map(Val::U32).map_err(e),
        Kind::Short => a.encode_u16().map(Val::U16).map_err(e),
        Kind::String => a.encode_string().map(Val::Str).map_err(e),
        Kind::Octets => Ok(Val::Bytes(a.encode_bytes())),
        Kind::Ipv4 => a.encode_ipv4().map(|x| Val::V4(x.octets())).map_err(e),
        Kind::Ipv6 => a.encode_ipv6().map(|x| Val::V6(x.octets())).map_err(e),
        Kind::Ipv4Prefix => a.encode_ipv4_prefix().map(Val::Bytes).map_err(e),
        Kind::Ipv6Prefix => a.encode_ipv6_prefix().map(Val::Bytes).map_err(e),
        Kind::Date => a.encode_date().map(|d| Val::Date(d.timestamp())).map_err(e),
        Kind::TInteger => a.encode_tagged_u32().map(|(v, t)| Val::TU32(t.get_value(), v)).map_err(e),
        Kind::TString => a.encode_tagged_string().map(|(s, t)| Val::TStr(t.map(|t| t.get_value()), s)).map_err(e),
        _ => panic!("harness: kind"),
    }
}

/// 32-bit values with structure: every value with at most two "odd" octets, powers of two +-1
fn u32_set() -> Vec<u32> {
    let mut v = std::collections::BTreeSet::new();
    for a in 0..4u32 {
        for x in 0..256u32 {
            v.insert(x << (8 * a));
            v.insert(!(x << (8 * a)));
            for b in 0..4u32 {
                for y in [1u32, 0x7f, 0x80, 0xfe, 0xff] {
                    v.insert((x << (8 * a)) ^ (y << (8 * b)));
                }
            }
        }
    }
    for k in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            v.insert(((1i64 << k) + d) as u32);
        }
    }
    v.into_iter().collect()
}

/// all scalar values of interest for UTF-8 texts
fn texts() -> Vec<String> {
    let cs: Vec<char> = ['\0', '\u{1}', '\u{1f}', ' ', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'].to_vec();
    let mut v = vec![String::new()];
    for a in &cs {
        v.push(a.to_string());
        for b in &cs {
            v.push(format!("{a}{b}"));
            for c in &cs {
                v.push(format!("{a}{b}{c}"));
            }
        }
    }
    for n in 0..=260 {
        v.push("x".repeat(n));
    }
    v
}

pub fn c08(ctx: &Ctx) {
    let us = u32_set();
    for kind in [Kind::Integer, Kind::Date, Kind::Ipv4] {
        ctx.space(&format!("{kind:?}"), "structured 32-bit values: written, stored octets, read back, over the wire", us.len() as u64, |i, l| {
            let x = us[i as usize];
            l.state(H::new().u(x as u64).u(kind.as_u64()));
            let v = match kind {
                Kind::Integer => Val::U32(x),
                Kind::Date => Val::Date(x as i64),
                _ => Val::V4([(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]),
            };
            typed_wire(l, kind, &v)
        });
    }
    if ctx.thorough {
        for kind in [Kind::Integer, Kind::Date, Kind::Ipv4] {
            // with the other back end, which differs in nothing that is read here, one block in sixteen
            let all = crate::BACKEND == "md5";
            let (n, what) = if all { (65536, "all 2^32 values, in blocks of 65536") } else { (4096, "every sixteenth block of 65536 values") };
            ctx.space(&format!("{kind:?}-full"), what, n, |i, l| {
                let i = if all { i } else { i << 4 | i & 15 };
                for k in 0..65536u32 {
                    let x = (i as u32) << 16 | k;
                    let v = match kind {
                        Kind::Integer => Val::U32(x),
                        Kind::Date => Val::Date(x as i64),
                        _ => Val::V4([(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]),
                    };
                    typed(l, kind, &v)
                }
            });
        }
    }
    ctx.space("Short", "all 16-bit values", 65536, |i, l| {
        l.state(H::new().u(i).u(1 << 40));
        typed_wire(l, Kind::Short, &Val::U16(i as u16))
    });
    ctx.space("Ipv6", "every value of every octet, on three backgrounds", 16 * 256 * 3, |i, l| {
        let mut ix = Ix(i);
        let mut a = [[0u8; 16], [0xff; 16], auth16(3)][ix.take(3) as usize];
        a[ix.take(16) as usize] = ix.take(256) as u8;
        l.state(H::new().b(&a));
        typed_wire(l, Kind::Ipv6, &Val::V6(a))
    });
    ctx.space("Ipv6-zero-runs", "every run of zero octets", 256, |i, l| {
        let mut a = [7u8; 16];
        for k in (i / 16)..=(i % 16) {
            a[k as usize] = 0
        }
        l.state(H::new().b(&a));
        typed_wire(l, Kind::Ipv6, &Val::V6(a))
    });
    ctx.space("Ipv6-groups", "every address whose groups are 0, 1, 0xffff or 0xa0b0", 1 << 16, |i, l| {
        let mut a = [0u8; 16];
        for k in 0..8 {
            a[2 * k..2 * k + 2].copy_from_slice(&[0u16, 1, 0xffff, 0xa0b0][(i >> (2 * k)) as usize & 3].to_be_bytes());
        }
        l.state(H::new().b(&a));
        typed_wire(l, Kind::Ipv6, &Val::V6(a));
        // and as a prefix, cut at each group
        let n = (i % 9) as usize * 2;
        typed_wire(l, Kind::Ipv6Prefix, &Val::Bytes(a[..n].to_vec()));
    });
    ctx.space("Ipv6-first-group", "every first group x two remainders, as address and as prefix", 1 << 17, |i, l| {
        let mut a = if i & 1 == 0 { [0u8; 16] } else { auth16(5) };
        a[..2].copy_from_slice(&((i >> 1) as u16).to_be_bytes());
        l.state(H::new().b(&a));
        typed_wire(l, Kind::Ipv6, &Val::V6(a));
        typed_wire(l, Kind::Ipv6Prefix, &Val::Bytes(a[..2 + (i >> 1) as usize % 15].to_vec()));
    });
    for kind in [Kind::Ipv4Prefix, Kind::Ipv6Prefix] {
        ctx.space(&format!("{kind:?}"), "every length 0..=64 (and around 256) x every value of every octet (first 18)", 80 * 18 * 256, |i, l| {
            let mut ix = Ix(i);
            let mut n = ix.take(80) as usize;
            if n > 64 {
                n = 250 + n - 65
            }
            let pos = ix.take(18) as usize;
            let x = ix.take(256) as u8;
            let mut b: Vec<u8> = (0..n).map(|k| (k % 250) as u8 + 1).collect();
            if pos < n {
                b[pos] = x
            }
            l.state(H::new().b(&b).u(kind.as_u64()));
            typed_wire(l, kind, &Val::Bytes(b))
        });
    }
    let ts = texts();
    ctx.space("String", "every text of up to three of 14 boundary characters, every length 0..=260", ts.len() as u64, |i, l| {
        l.state(H::new().b(ts[i as usize].as_bytes()).u(9));
        typed_wire(l, Kind::String, &Val::Str(ts[i as usize].clone()))
    });
    ctx.space("chars", "every Unicode scalar value as a text", 0x110000, |i, l| {
        if let Some(c) = char::from_u32(i as u32) {
            l.state(H::new().u(i).u(10));
            typed(l, Kind::String, &Val::Str(c.to_string()))
        }
    });
    ctx.space("Octets", "every length 0..=260 x every value at the first, middle and last octet", 261 * 256 * 3, |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(261) as usize;
        let x = ix.take(256) as u8;
        let mut b = pattern(n, 3);
        if n > 0 {
            let k = [0, n / 2, n - 1][ix.take(3) as usize];
            b[k] = x;
        }
        l.state(H::new().b(&b).u(11));
        typed_wire(l, Kind::Octets, &Val::Bytes(b))
    });
    ctx.space("types", "every attribute number x every value kind: the number on the wire is the one given", 256 * 10, |i, l| {
        let t = (i % 256) as u8;
        l.op();
        l.state(H::new().u(i).u(12));
        let a = match i / 256 {
            0 => AVP::from_u32(t, 5),
            1 => AVP::from_u16(t, 5),
            2 => AVP::from_string(t, "x"),
            3 => AVP::from_bytes(t, b"y"),
            4 => AVP::from_ipv4(t, &Ipv4Addr::LOCALHOST),
            5 => AVP::from_ipv6(t, &Ipv6Addr::LOCALHOST),
            6 => AVP::from_ipv4_prefix(t, &[1, 2, 3, 4]).expect("4 octets"),
            7 => AVP::from_ipv6_prefix(t, &[1, 2, 3, 4]).expect("4 octets"),
            8 => AVP::from_date(t, &mkdate(4)),
            _ => AVP::from_user_password(t, b"p", b"s", &[0; 16]).expect("good"),
        };
        match wire_of(a) {
            Ok((g, _)) => l.check(g == t, || format!("attribute {t} went out as {g}")),
            Err(e) => l.fail(e),
        }
    });
    // sub-second dates
    ctx.space("date-fractions", "dates with a fraction of a second are stored as their whole seconds", 64 * 4, |i, l| {
        use chrono::TimeZone;
        let s = us[(i as usize / 4) * us.len() / 64] as i64;
        let ns = [0u32, 1, 500_000_000, 999_999_999][(i % 4) as usize];
        let d = chrono::Utc.timestamp_opt(s, ns).unwrap();
        l.op();
        let st = AVP::from_date(55, &d).encode_bytes();
        l.state(H::new().u(s as u64).u(ns as u64).u(13));
        l.check(st == (s as u32).to_be_bytes(), || format!("{d:?} stored as {}", hex(&st)));
    });
}

impl Kind {
    pub fn as_u64(self) -> u64 {
        match self {
            Kind::Fixed(n) => 100 + n as u64,
            k => format!("{k:?}").len() as u64 * 31 + format!("{k:?}").as_bytes()[0] as u64,
        }
    }
}

const READERS: [Kind; 10] = [Kind::String, Kind::Ipv4, Kind::Ipv4Prefix, Kind::Ipv6, Kind::Ipv6Prefix, Kind::Date, Kind::Integer, Kind::TInteger, Kind::Short, Kind::TString];

fn read_as(l: &mut Local, kind: Kind, st: &[u8]) {
    l.op();
    let got = reading(kind, &AVP::from_bytes(9, st));
    match read(kind, st, b"", b"").unwrap() {
        Ok(w) => l.check(got.as_ref() == Ok(&w), || format!("{} read as {kind:?} gives {got:?} instead of {w:?}", hex(st))),
        Err(_) => l.check(got.is_err(), || format!("{} read as {kind:?} gives {got:?}, must be an error", hex(st))),
    }
}

fn read_every(l: &mut Local, st: &[u8]) {
    l.state(H::new().b(st));
    for k in READERS {
        read_as(l, k, st);
    }
    // passwords: no panic, and errors where required
    read_user_pw(l, st, b"secret", &[7; 16]);
    read_tunnel_pw(l, st, b"secret", &[7; 16]);
    l.op();
    l.check(AVP::from_bytes(9, st).encode_bytes() == st, || format!("{} not read verbatim", hex(st)));
    if l.want_detail {
        l.note = format!("{} read as every type", hex(st));
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.space("lengths", "every stored length 0..=300 and around 64 Ki x 8 fillings x every reader", 310 * 8, |i, l| {
        let mut n = (i / 8) as usize;
        if n > 300 {
            n = 65530 + n - 300
        }
        let st: Vec<u8> = match i % 8 {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![0x41; n],
            3 => vec![0x1f; n],
            4 => vec![0x80; n],
            5 => vec![0x01; n],
            6 => pattern(n, i),
            _ => (0..n).map(|k| k as u8).collect(),
        };
        read_every(l, &st)
    });
    ctx.space("octets-1-2", "every stored value of one or two octets x every reader", 256 + 65536, |i, l| {
        if i < 256 {
            read_every(l, &[i as u8])
        } else {
            read_every(l, &[(i - 256) as u8, ((i - 256) >> 8) as u8])
        }
    });
    // three/four octets over UTF-8 relevant bytes
    let ua: Vec<u8> = vec![0x00, 0x01, 0x1f, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff];
    let n = ua.len() as u64;
    for k in [3u32, 4] {
        ctx.space(&format!("utf8-{k}"), "every stored value of this length over 30 UTF-8 boundary octets x every reader", n.pow(k), |i, l| {
            let mut ix = Ix(i);
            let st: Vec<u8> = (0..k).map(|_| *ix.of(&ua)).collect();
            read_every(l, &st)
        });
    }
    if ctx.thorough {
        ctx.space("utf8-5", "every stored value of 5 octets over 30 UTF-8 boundary octets", n.pow(5), |i, l| {
            let mut ix = Ix(i);
            let st: Vec<u8> = (0..5).map(|_| *ix.of(&ua)).collect();
            for k in [Kind::String, Kind::TString, Kind::TInteger] {
                read_as(l, k, &st)
            }
        });
        ctx.space("octets-3", "every stored value of three octets read as text and tagged text", 1 << 24, |i, l| {
            let st = [i as u8, (i >> 8) as u8, (i >> 16) as u8];
            for k in [Kind::String, Kind::TString] {
                read_as(l, k, &st)
            }
        });
    }
    for len in [4usize, 5, 6, 16, 18] {
        ctx.space(&format!("octet-values-{len}"), "every value at every position of a stored value of this length x every reader", len as u64 * 256, |i, l| {
            let mut st = vec![0x31; len];
            st[(i / 256) as usize] = (i % 256) as u8;
            read_every(l, &st)
        });
    }
    // text with one bad octet anywhere
    ctx.space("bad-octet", "texts of every length 1..=253 with one octet 0xff/0x80/0xc3 at every position", 253 * 254 / 2 * 3, |i, l| {
        let bad = [0xffu8, 0x80, 0xc3][(i % 3) as usize];
        let mut k = i / 3;
        let mut n = 1;
        while k >= n {
            k -= n;
            n += 1;
        }
        let mut st = vec![0x61u8; n as usize];
        st[k as usize] = bad;
        l.state(H::new().b(&st));
        read_as(l, Kind::String, &st);
        read_as(l, Kind::TString, &st);
    });
    // lookup_all with one malformed among good ones
    let attrs = crate::dict_gen::attrs();
    let raws = crate::dict::raws();
    ctx.space("any-malformed", "every dictionary attribute: 1..=3 attributes, every stored value out of a list at every place", attrs.len() as u64 * raws.len() as u64 * 6, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let raw = ix.of(&raws);
        let place = ix.take(6) as usize;
        let (Some(lk), Some(la)) = (a.lookup, a.lookup_all) else { return };
        let m = model::MPacket { code: 1, id: 1, auth: auth16(5), attrs: vec![] };
        let secret = b"secret";
        let mut p = build(&m, secret);
        // good values
        let good: Vec<Vec<u8>> = match a.kind {
            Kind::TunnelPw => vec![[vec![1, 0x80, 0], model::hide(&model::pad16(b"good"), secret, &[&m.auth[..], &[0x80, 0]].concat())].concat()],
            k => crate::dict::samples(k).iter().filter_map(|v| write(k, v, secret, &m.auth).ok()).filter(|w| w.len() <= 253 && matches!(read(k, w, secret, &m.auth), Some(Ok(_)))).take(2).collect(),
        };
        let (n, pos) = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)][place];
        let mut stored: Vec<Vec<u8>> = vec![];
        for k in 0..n {
            let v = if k == pos { raw.clone() } else { good[k % good.len()].clone() };
            p.add(AVP::from_bytes(a.num, &v));
            p.add(AVP::from_bytes(a.num.wrapping_add(1), b"\xff"));
            stored.push(v);
        }
        l.state(H::new().u(a.num as u64).b(raw).u(place as u64));
        l.ops += 2;
        let (one, all) = (lk(&p), la(&p));
        let wants: Vec<_> = stored.iter().map(|s| read(a.kind, s, secret, &m.auth)).collect();
        if wants.iter().any(|w| w.is_none()) {
            return; // left open (User-Password of odd length)
        }
        let wants: Vec<_> = wants.into_iter().flatten().collect();
        let d = || format!("{} {} with stored values {:?}", a.module, a.name, stored.iter().map(|s| hex(s)).collect::<Vec<_>>());
        match (&one, &wants[0]) {
            (Some(Ok(g)), Ok(w)) => l.check(g == w, || format!("{}: lookup gives {g:?} instead of {w:?}", d())),
            (Some(Err(_)), Err(_)) => {}
            (g, w) => l.fail(format!("{}: lookup gives {g:?} instead of {w:?}", d())),
        }
        if wants.iter().any(|w| w.is_err()) {
            l.check(all.is_err(), || format!("{}: lookup_all gives {all:?}, must be an error", d()));
        } else {
            let w: Vec<Val> = wants.into_iter().flatten().collect();
            l.check(all.as_ref() == Ok(&w), || format!("{}: lookup_all gives {all:?} instead of {w:?}", d()));
        }
        if l.want_detail {
            l.note = d();
        }
    });
}

pub fn c13(ctx: &Ctx) {
    let us = u32_set();
    ctx.space("tagged-integer", "every tag octet x structured 32-bit values, written and read", 256 * us.len() as u64 / ctx.pick(16, 1), |i, l| {
        let mut ix = Ix(i);
        let t = ix.take(256) as u8;
        let x = us[(ix.0 as usize * ctx.pick(16, 1) as usize + t as usize % 16) % us.len()];
        l.state(H::new().u(t as u64).u(x as u64));
        typed(l, Kind::TInteger, &Val::TU32(t, x));
        l.note = format!("tag {t} value {x:#x}");
    });
    ctx.space("untagged-integer", "no tag: stored as zero tag x all structured values", us.len() as u64, |i, l| {
        let x = us[i as usize];
        l.ops += 2;
        l.state(H::new().u(999).u(x as u64));
        let a = AVP::from_tagged_u32(64, None, x);
        let w = [&[0u8][..], &x.to_be_bytes()].concat();
        l.check(a.encode_bytes() == w, || format!("untagged {x} stored as {}", hex(&a.encode_bytes())));
        match a.encode_tagged_u32() {
            Ok((v, t)) => l.check(v == x && t.get_value() == 0 && t.is_zero(), || format!("untagged {x} read as {v} tag {}", t.get_value())),
            Err(e) => l.fail(format!("{e:?}")),
        }
    });
    let ts = texts();
    ctx.space("tagged-string", "every tag octet and none x texts (up to three boundary characters)", 257 * (ts.len() as u64 / ctx.pick(8, 1)), |i, l| {
        let mut ix = Ix(i);
        let t = ix.take(257);
        let k = (ix.0 as usize * ctx.pick(8, 1) as usize + t as usize % 8).min(ts.len() - 1);
        let t = if t == 256 { None } else { Some(t as u8) };
        l.state(H::new().u(t.map_or(256, |t| t as u64)).b(ts[k].as_bytes()));
        typed(l, Kind::TString, &Val::TStr(t, ts[k].clone()));
        l.note = format!("tag {t:?} text {:?}", ts[k].chars().take(10).collect::<String>());
    });
    ctx.space("stored", "every first octet x every length 0..=8 x following octets: read as tagged integer and tagged text", 256 * 9 * 4, |i, l| {
        let mut ix = Ix(i);
        let f = ix.take(256) as u8;
        let n = ix.take(9) as usize;
        let r = [0u8, 0x41, 0x1f, 0xc3][ix.take(4) as usize];
        let mut st = vec![r; n];
        if n > 0 {
            st[0] = f
        }
        l.state(H::new().b(&st));
        read_as(l, Kind::TInteger, &st);
        read_as(l, Kind::TString, &st);
    });
    ctx.space("tag-type", "every tag octet: value, is_zero, is_valid_value", 256, |i, l| {
        let t = Tag::new(i as u8);
        l.op();
        l.state(H::new().u(i).u(5));
        l.check(t.get_value() == i as u8 && t.is_zero() == (i == 0) && t.is_valid_value() == (1..=0x1f).contains(&i), || format!("tag {i}"));
        l.check(Tag::new_unused().get_value() == 0 && Tag::new_unused().is_zero(), || "unused tag".into());
    });
    // through the accessors and over the wire
    let attrs: Vec<_> = crate::dict_gen::attrs().into_iter().filter(|a| matches!(a.kind, Kind::TString | Kind::TInteger)).collect();
    ctx.space("accessors", "every tagged dictionary attribute x every tag 0..=0x1f and none x values, over the wire, several in one packet", attrs.len() as u64 * 33 * 6, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let t = ix.take(33) as u8;
        let k = ix.take(6) as usize;
        let v: Vec<Val> = match a.kind {
            Kind::TInteger => {
                let x = [0u32, 1, 13, 0x00ffffff, 0x01000000, 0xffffffff][k];
                vec![Val::TU32(t % 32, x), Val::TU32((t + 1) % 32, !x), Val::TU32(0, 5)]
            }
            _ => {
                let s = ["a", "10.0.0.1", "gr\u{fc}n", "~", "group 7", "x"][k].repeat(1 + k);
                vec![Val::TStr(if t == 32 || t == 0 { None } else { Some(t) }, s.clone()), Val::TStr(Some(t % 31 + 1), String::new()), Val::TStr(None, s)]
            }
        };
        let mut p = radius::core::packet::Packet::new(radius::core::code::Code::AccessRequest, b"s");
        for x in &v {
            l.op();
            (a.add.unwrap())(&mut p, x, t == 0).unwrap();
        }
        l.state(H::new().u(a.num as u64).u(t as u64).u(k as u64));
        let stored: Vec<Vec<u8>> = p.lookup_all(a.num).iter().map(|x| x.encode_bytes()).collect();
        let want: Vec<Vec<u8>> = v.iter().map(|x| write(a.kind, x, b"", b"").unwrap()).collect();
        l.check(stored == want, || format!("{}: {v:?} stored as {stored:?}", a.name));
        match p.encode().ok().and_then(|e| radius::core::packet::Packet::decode(&e, b"s").ok()) {
            Some(q) => {
                l.ops += 2;
                let all = (a.lookup_all.unwrap())(&q);
                l.check(all.as_ref() == Ok(&v), || format!("{}: {v:?} read as {all:?}", a.name));
                let one = (a.lookup.unwrap())(&q);
                l.check(matches!(&one, Some(Ok(x)) if *x == v[0]), || format!("{}: {v:?} looked up as {one:?}", a.name));
            }
            None => l.fail("round trip failed"),
        }
    });
}

pub fn c14(ctx: &Ctx) {
    let vend: Vec<i32> = (0..32).flat_map(|k| [1i32 << k, (1i32 << k).wrapping_sub(1), !(1i32 << k)]).chain([0, -1, 9, 311, 4874, 14988, i32::MAX, i32::MIN, 0x01020304]).collect();
    let go = |l: &mut Local, v: i32, t: u8, tg: Option<u8>, s: &str| {
        let body = s.len() + 2 + tg.is_some() as usize;
        let mut w = v.to_be_bytes().to_vec();
        w.push(t);
        w.push(body as u8);
        w.extend(tg);
        w.extend(s.as_bytes());
        l.ops += 3;
        l.state(H::new().u(v as u32 as u64).u(t as u64).u(tg.map_or(256, |t| t as u64)).b(s.as_bytes()));
        let x: Box<dyn VSA> = match tg {
            None => Box::new(StringVSA::new(v, t, s)),
            Some(g) => Box::new(TaggedStringVSA::new(v, t, g, s)),
        };
        let d = || format!("vendor {v} type {t} tag {tg:?} text of {} octets", s.len());
        l.check(x.message() == w, || format!("{}: message {} instead of {}", d(), hex(&x.message()), hex(&w)));
        l.check(x.len() == body, || format!("{}: len() = {}", d(), x.len()));
        l.check(!x.is_empty(), || format!("{}: is_empty()", d()));
        if w.len() <= 253 {
            let mut p = radius::core::packet::Packet::new(radius::core::code::Code::AccessRequest, b"s");
            p.add(AVP::from_bytes(1, b"u"));
            radius::core::rfc2865::add_vsa_attribute(&mut p, x.as_ref());
            let e = p.encode().ok().and_then(|e| model::parse(&e)).map(|m| m.attrs);
            l.check(e.as_deref() == Some(&[(1, b"u".to_vec()), (26, w.clone())][..]), || format!("{}: in the packet {e:?}", d()));
            l.check(p.lookup(26).map(|a| a.encode_bytes()) == Some(w.clone()), || format!("{}: attribute 26 differs", d()));
        }
        if l.want_detail {
            l.note = format!("{} -> {}", d(), hex(&w));
        }
    };
    let tags = [None, Some(0u8), Some(1), Some(0x1f), Some(0x80), Some(0xff)];
    ctx.space("lengths", "every text length whose message fits an attribute x tags x vendor ids x 4 types", 248 * 6 * vend.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let n = ix.take(248) as usize;
        let tg = *ix.of(&tags);
        let v = *ix.of(&vend);
        let t = [0u8, 1, 65, 255][ix.take(4) as usize];
        let n = n.min(253 - 6 - tg.is_some() as usize);
        go(l, v, t, tg, &"q".repeat(n))
    });
    ctx.space("types-tags", "every vendor type x every tag and none", 256 * 257, |i, l| {
        let mut ix = Ix(i);
        let t = ix.take(256) as u8;
        let g = ix.take(257);
        go(l, 4874, t, if g == 256 { None } else { Some(g as u8) }, "bar(1000,5441)")
    });
    let ts = texts();
    ctx.space("texts", "texts of up to three boundary characters, tagged and not", ts.len() as u64 * 2, |i, l| {
        let s = &ts[(i / 2) as usize];
        if s.len() <= 246 {
            go(l, 9, 1, if i % 2 == 0 { None } else { Some(3) }, s)
        }
    });
    ctx.space("vendor-octets", "every value of every vendor id octet", 4 * 256 * 2, |i, l| {
        let v = (((i / 2) % 256) as u32) << (8 * (i / 512));
        go(l, v as i32, 7, if i % 2 == 0 { None } else { Some(3) }, "x")
    });
    ctx.space("several", "several vendor attributes in one packet keep their order; deletion removes them all", 6 * 6 * 6, |i, l| {
        use radius::core::rfc2865 as r;
        let mut ix = Ix(i);
        let mut p = radius::core::packet::Packet::new(radius::core::code::Code::AccessRequest, b"s");
        let mut w = vec![];
        for _ in 0..3 {
            let k = ix.take(6) as i32;
            let x = StringVSA::new(k, k as u8, &"z".repeat(k as usize));
            r::add_vsa_attribute(&mut p, &x);
            r::add_user_name(&mut p, "u");
            w.push(x.message());
            l.op();
        }
        l.state(H::new().u(i).u(77));
        l.check(p.lookup_all(26).iter().map(|a| a.encode_bytes()).collect::<Vec<_>>() == w, || "order".into());
        r::delete_vendor_specific(&mut p);
        l.check(p.lookup(26).is_none() && p.lookup_all(1).len() == 3, || "deletion".into());
    });
}
