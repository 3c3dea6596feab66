use crate::engine::*;
use crate::model::{self, MPacket};
use crate::util::*;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;

type CaseFn<'a> = &'a (dyn Fn(&[u8], &[u8], &mut Local) + Sync);

const SECRETS: [&[u8]; 4] = [b"secret", b"x", b"\x00\xff\x80", b"0123456789abcdef0123456789abcdef"];

fn header(code: u8, id: u8, len: usize, auth: &[u8; 16]) -> Vec<u8> {
    let mut v = vec![code, id, (len >> 8) as u8, len as u8];
    v.extend(auth);
    v
}

/// real packets used as seeds for tampering
pub fn seeds() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let a = auth16(1);
    let mut p = MPacket {
        code: 1,
        id: 7,
        auth: a,
        attrs: vec![
            (1, b"nemo".to_vec()),
            (2, pattern(16, 3)),
            (4, vec![192, 168, 1, 16]),
            (5, vec![0, 0, 0, 3]),
        ],
    };
    v.push(model::encode(&p, SECRETS[0]).unwrap());
    p.code = 4;
    p.attrs.push((40, vec![0, 0, 0, 1]));
    v.push(model::encode(&p, SECRETS[0]).unwrap());
    p.code = 2;
    p.attrs = vec![(18, vec![]), (26, pattern(30, 9)), (79, pattern(253, 10)), (79, pattern(1, 11))];
    v.push(model::encode(&p, SECRETS[0]).unwrap());
    p.code = 43;
    p.attrs = vec![];
    v.push(model::encode(&p, SECRETS[0]).unwrap());
    v
}

/// Every octet string of these finite families is given to the case function.
fn decode_spaces(ctx: &Ctx, f: CaseFn) {
    // 1. every value of the length field, for many datagram sizes and fillings
    let mut sizes: Vec<usize> = (0..=28).collect();
    sizes.extend([33, 64, 275, 276, 277, 300, 1500, 4095, 4096, 4097]);
    if ctx.thorough {
        sizes.extend((29..=130).filter(|n| *n != 33 && *n != 64));
        sizes.extend([4098, 8192, 65507]);
    }
    let fill: [&[u8]; 4] = [&[0], &[7, 2], &[9, 3, 5], &[]];
    let bufs: Vec<Vec<Vec<u8>>> = sizes
        .iter()
        .map(|size| fill.iter().map(|pat| (0..*size).map(|k| if pat.is_empty() { 0x61 } else { pat[k.saturating_sub(20) % pat.len()] }).collect()).collect())
        .collect();
    ctx.space(
        "length-field",
        "every length field value x datagram sizes x fillings",
        (sizes.len() * 65536 * fill.len()) as u64,
        |i, l| {
            let mut ix = Ix(i);
            let len = ix.take(65536) as usize;
            let sz = ix.take(sizes.len() as u64) as usize;
            let size = sizes[sz];
            let pi = ix.take(fill.len() as u64) as usize;
            let mut bs = bufs[sz][pi].clone();
            for (k, b) in header(1, 5, len, &[0x5a; 16]).iter().enumerate().take(size) {
                bs[k] = *b;
            }
            if fill[pi].is_empty() {
                // maximal attributes up to the declared end
                let end = len.min(size);
                let mut k = 20;
                while k < end {
                    let r = (end - k).min(255);
                    if r > 1 {
                        bs[k + 1] = r as u8;
                    }
                    k += r;
                }
            }
            f(&bs, SECRETS[0], l)
        },
    );
    // 2. every attribute area up to a length over a structural alphabet
    let alpha: [u8; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 255];
    for n in 0..=ctx.pick(6, 8) {
        let cnt = 9u64.pow(n as u32);
        ctx.space(
            &format!("areas-{n}"),
            "every attribute area of this length over {0..7,255} x exact/short/padded datagram",
            cnt * 3,
            |i, l| {
                let mut ix = Ix(i);
                let pad = ix.take(3) as usize;
                let mut bs = header(1, 1, 20 + n as usize, &[1; 16]);
                for _ in 0..n {
                    bs.push(*ix.of(&alpha));
                }
                match pad {
                    0 => {}
                    1 => bs.extend([1, 4, 9]),
                    _ => {
                        bs.pop();
                    }
                }
                f(&bs, SECRETS[1], l)
            },
        );
    }
    // 3. one length octet against the room left, after some good attributes
    ctx.space(
        "attr-length",
        "every attribute length octet x octets left (0..=260) x number of attributes before",
        256 * 261 * 3,
        |i, l| {
            let mut ix = Ix(i);
            let lo = ix.take(256) as u8;
            let left = ix.take(261) as usize;
            let before = ix.take(3) as usize;
            let mut area = vec![];
            for k in 0..before {
                area.extend([k as u8 + 1, 3 + k as u8]);
                area.extend(vec![0x41; 1 + k]);
            }
            area.push(80);
            area.push(lo);
            // what follows parses as attributes of length 2 if the octet is honoured
            for k in 0..left {
                area.push(if k + 2 >= lo as usize { if (k + 2 - lo as usize) % 2 == 0 { 6 } else { 2 } } else { 0x55 });
            }
            let mut bs = header(2, 9, 20 + area.len(), &[2; 16]);
            bs.extend(area);
            f(&bs, SECRETS[2], l)
        },
    );
    // 4. around the maximum packet size
    ctx.space(
        "near-max",
        "declared length 4060..=4110 x datagram size 4060..=4110 x attribute size 2..=255",
        51 * 51 * 254,
        |i, l| {
            let mut ix = Ix(i);
            let len = 4060 + ix.take(51) as usize;
            let size = 4060 + ix.take(51) as usize;
            let asz = 2 + ix.take(254) as usize;
            let mut bs = header(1, 3, len, &[3; 16]);
            while bs.len() < size {
                // exact tiling up to the declared length
                let room = len.saturating_sub(bs.len());
                let k = if room == 0 { asz } else if room >= asz + 2 || room == asz { asz } else if room >= 2 && room <= 255 { room } else { asz - 1 };
                bs.push(25);
                bs.push(k.max(2) as u8);
                bs.resize(bs.len() + k.max(2) - 2, 0x30);
            }
            bs.truncate(size);
            f(&bs, SECRETS[3], l)
        },
    );
    // 5. number of attributes
    ctx.space("many", "n empty attributes, n = 0..=2040, exact and one octet over", 2041 * 2, |i, l| {
        let n = (i / 2) as usize;
        let mut bs = header(1, 3, 20 + 2 * n + (i % 2) as usize, &[3; 16]);
        for k in 0..n {
            bs.extend([(k % 256) as u8, 2]);
        }
        if i % 2 == 1 {
            bs.push(1);
        }
        f(&bs, SECRETS[0], l)
    });
    // 6. real packets with one octet replaced, or cut, or extended
    let seeds = seeds();
    for (k, s) in seeds.iter().enumerate() {
        let n = s.len() as u64;
        ctx.space(&format!("subst-{k}"), "a real packet with each octet replaced by each value", n * 256, |i, l| {
            let mut bs = s.clone();
            bs[(i / 256) as usize] = (i % 256) as u8;
            f(&bs, SECRETS[0], l)
        });
        ctx.space(&format!("cut-{k}"), "each prefix of a real packet, with the length field as is or adapted, extended by 0..=40 octets", (n + 1) * 2 * 41, |i, l| {
            let mut ix = Ix(i);
            let cut = ix.take(n + 1) as usize;
            let adapt = ix.take(2) == 1;
            let ext = ix.take(41) as usize;
            let mut bs = s[..cut].to_vec();
            if adapt && cut >= 4 {
                bs[2] = (cut >> 8) as u8;
                bs[3] = cut as u8;
            }
            bs.extend(pattern(ext, 77));
            f(&bs, SECRETS[0], l)
        });
    }
    if ctx.thorough {
        let s = &seeds[0];
        let n = s.len() as u64;
        let vals: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 6, 18, 19, 20, 38, 56, 127, 128, 254, 255];
        ctx.space("subst2", "a real packet with each pair of octets replaced by each pair of 16 values", n * n * 256, |i, l| {
            let mut ix = Ix(i);
            let a = ix.take(n) as usize;
            let b = ix.take(n) as usize;
            let mut bs = s.clone();
            bs[a] = *ix.of(&vals);
            bs[b] = *ix.of(&vals);
            f(&bs, SECRETS[0], l)
        });
    }
    // 7. header values
    ctx.space("header", "every code x every identifier x 4 attribute areas x authenticator patterns", 256 * 256 * 4, |i, l| {
        let mut ix = Ix(i);
        let c = ix.take(256) as u8;
        let id = ix.take(256) as u8;
        let area: &[u8] = [&[][..], &[1, 3, 65], &[0, 2, 255, 4, 0, 255], &[33, 2, 33, 2]][ix.take(4) as usize];
        let mut bs = header(c, id, 20 + area.len(), &auth16(i));
        bs.extend(area);
        f(&bs, SECRETS[(i % 4) as usize], l)
    });
    ctx.space("auth-octets", "every value of every authenticator octet", 16 * 256, |i, l| {
        let mut a = [0u8; 16];
        a[(i / 256) as usize] = (i % 256) as u8;
        let mut bs = header(1, 1, 23, &a);
        bs.extend([1, 3, 65]);
        f(&bs, SECRETS[0], l)
    });
    ctx.space("attr-types", "every attribute type x every value length 0..=253", 256 * 254, |i, l| {
        let t = (i % 256) as u8;
        let n = (i / 256) as usize;
        let mut bs = header(1, 1, 22 + n, &[4; 16]);
        bs.extend([t, n as u8 + 2]);
        bs.extend(pattern(n, i));
        f(&bs, SECRETS[0], l)
    });
    ctx.space("secrets", "every secret length 0..=300 on a packet", 301, |i, l| {
        f(&seeds[0], &pattern(i as usize, i), l)
    });
    let odd = odd_secrets();
    ctx.space("odd-secrets", "secrets with every octet value alone, repeated, first, in the middle and last x 3 packets", odd.len() as u64 * 3, |i, l| {
        let mut ix = Ix(i);
        let s = ix.of(&odd);
        f(&seeds[ix.take(3) as usize % seeds.len()], s, l)
    });
    // 8. far more octets than declared, also around multiples of 65536
    let sizes: Vec<usize> = [4096usize, 4097, 5000, 9000, 32767, 32768, 65507, 65515].into_iter().chain(65534..=65580).chain((131068..=131140).step_by(3)).chain([65536 + 4096, 262144 + 20]).collect();
    let lens: [usize; 16] = [0, 1, 19, 20, 21, 22, 24, 40, 60, 256, 4094, 4095, 4096, 4097, 32768, 65535];
    ctx.space("huge", "datagrams of up to 262164 octets (each size around 65536 and 131072) x declared lengths x filling", (sizes.len() * lens.len() * 3) as u64, |i, l| {
        let mut ix = Ix(i);
        let size = *ix.of(&sizes);
        let len = *ix.of(&lens);
        let mut bs = header(1, 5, len, &[0x5a; 16]);
        bs.resize(size, [0u8, 2, 6][ix.take(3) as usize]);
        f(&bs, SECRETS[0], l)
    });
    // 9. pairs of properties of packets and attributes
    ctx.space("code-type", "every code x every attribute type x 4 value lengths", 65536 * 4, |i, l| {
        let mut ix = Ix(i);
        let c = ix.take(256) as u8;
        let t = ix.take(256) as u8;
        let n = [0usize, 1, 4, 18][ix.take(4) as usize];
        let mut bs = header(c, 1, 22 + n, &auth16(i % 7));
        bs.extend([t, n as u8 + 2]);
        bs.extend(pattern(n, i));
        f(&bs, SECRETS[1], l)
    });
    ctx.space("type-pairs", "every pair of attribute types, with equal or different values, a third attribute of the first type", 65536 * 2, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.take(256) as u8, ix.take(256) as u8);
        let v = ix.take(2) as u8;
        let mut bs = header(1, 1, 29, &[6; 16]);
        bs.extend([a, 3, 7, b, 3, 7 + v, a, 3, 7]);
        f(&bs, SECRETS[0], l)
    });
    ctx.space("length-pairs", "every pair of value lengths of two attributes", 254 * 254, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.take(254) as usize, ix.take(254) as usize);
        let mut bs = header(2, 1, 24 + a + b, &[6; 16]);
        bs.extend([11, a as u8 + 2]);
        bs.extend(pattern(a, 1));
        bs.extend([44, b as u8 + 2]);
        bs.extend(pattern(b, 2));
        f(&bs, SECRETS[0], l)
    });
}

pub fn c01(ctx: &Ctx) {
    decode_spaces(ctx, &|bs, secret, l| {
        let m = model::parse(bs);
        l.op();
        let r = Packet::decode(bs, secret);
        match &m {
            Some(p) => l.state(hash_packet(p)),
            None => l.state(H::new().b(&bs[..bs.len().min(24)]).u(bs.len() as u64)),
        }
        l.result(H::new().u(r.is_ok() as u64));
        l.check(r.is_ok() == m.is_some(), || {
            format!(
                "decode({}) returned {} but the datagram is {}",
                hex(bs),
                match &r {
                    Ok(_) => "a packet".to_string(),
                    Err(e) => format!("error {e:?}"),
                },
                if m.is_some() { "well-formed" } else { "malformed" }
            )
        });
        if l.want_detail {
            l.note = format!("decode {} octets {} -> {}", bs.len(), hex(&bs[..bs.len().min(60)]), if r.is_ok() { "packet" } else { "error" });
        }
    });
}

/// Packet read through its public interface equals the model.
pub fn same(p: &Packet, m: &MPacket, secret: &[u8], l: &mut Local, ctx: &str) {
    l.check(p.get_code() == code(m.code), || format!("{ctx}: type {:?} instead of code {}", p.get_code(), m.code));
    l.check(p.get_identifier() == m.id, || format!("{ctx}: identifier {} instead of {}", p.get_identifier(), m.id));
    l.check(p.get_authenticator()[..] == m.auth, || format!("{ctx}: authenticator {} instead of {}", hex(p.get_authenticator()), hex(&m.auth)));
    l.check(p.get_secret()[..] == *secret, || format!("{ctx}: secret differs"));
    let (a, b) = (by_type(p), model_by_type(&m.attrs));
    l.check(a == b, || format!("{ctx}: attributes {a:?} instead of {b:?}"));
}

pub fn c02(ctx: &Ctx) {
    decode_spaces(ctx, &|bs, secret, l| {
        let Some(m) = model::parse(bs) else { return };
        l.op();
        l.state(hash_packet(&m));
        let p = match Packet::decode(bs, secret) {
            Ok(p) => p,
            Err(e) => return l.fail(format!("decode({}) failed: {e:?}", hex(bs))),
        };
        same(&p, &m, secret, l, "decoded packet");
        // the order over types, whatever the code: through a request-typed copy
        l.op();
        let mut q = m.clone();
        let e = if model::SENDABLE.contains(&m.code) {
            p.encode()
        } else {
            l.check(p.encode().is_err(), || format!("a packet of code {} was encoded", m.code));
            return;
        };
        let want = model::encode(&q, secret);
        l.check(e.as_ref().ok() == want.as_ref(), || {
            format!("re-encoding {} gave {:?}", hex(bs), e.as_ref().map(|x| hex(x)))
        });
        if let Ok(e) = e {
            let len = e.len();
            l.check(e[..4] == bs[..4] && e[20..] == bs[20..len], || format!("re-encoding changed octets outside the authenticator: {}", hex(bs)));
            l.op();
            match Packet::decode(&e, secret) {
                Ok(p2) => {
                    q.auth.copy_from_slice(&e[4..20]);
                    same(&p2, &q, secret, l, "decoded again");
                    if model::OWN_AUTH.contains(&m.code) {
                        l.check(p2 == p, || "decode(encode(p)) != p".into());
                    }
                }
                Err(x) => l.fail(format!("own encoding {} is not decodable: {x:?}", hex(&e))),
            }
        }
        if l.want_detail {
            l.note = format!("code {} id {} {} attributes, {} octets", m.code, m.id, m.attrs.len(), bs.len());
        }
    });
    // packets built attribute by attribute
    let vals: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 2, 3, 4], pattern(252, 1), pattern(253, 2)];
    let types = [0u8, 1, 26, 79, 255];
    let opts = vals.len() as u64 * types.len() as u64;
    for n in 0..=ctx.pick(3, 4) {
        ctx.space(
            &format!("built-{n}"),
            "every sendable type x every list of n attributes over 5 types x 5 values",
            13 * opts.pow(n as u32),
            |i, l| {
                let mut ix = Ix(i);
                let c = *ix.of(&model::SENDABLE);
                let mut attrs = vec![];
                for _ in 0..n {
                    attrs.push((*ix.of(&types), ix.of(&vals).clone()));
                }
                let m = MPacket { code: c, id: (i % 251) as u8, auth: auth16(i), attrs };
                l.state(hash_packet(&m));
                let p = build(&m, b"s3cret");
                l.op();
                match p.encode() {
                    Ok(e) => {
                        l.check(Some(&e) == model::encode(&m, b"s3cret").as_ref(), || format!("encoding of {m:?} is {}", hex(&e)));
                        l.op();
                        match Packet::decode(&e, b"s3cret") {
                            Ok(p2) => {
                                let mut q = m.clone();
                                q.auth.copy_from_slice(&e[4..20]);
                                same(&p2, &q, b"s3cret", l, "decode(encode(p))");
                                if model::OWN_AUTH.contains(&c) {
                                    l.check(p2 == p, || "decode(encode(p)) != p".into());
                                }
                            }
                            Err(x) => l.fail(format!("own encoding {} is not decodable: {x:?}", hex(&e))),
                        }
                    }
                    Err(e) => l.fail(format!("encoding of {m:?} failed: {e:?}")),
                }
            },
        );
    }
}

pub fn c03(ctx: &Ctx) {
    let go = |m: &MPacket, secret: &[u8], l: &mut Local| {
        let p = build(m, secret);
        let want = model::encode(m, secret);
        l.op();
        let got = p.encode();
        let mut h = H::new().u(m.code as u64).u(m.attrs.len() as u64);
        for a in m.attrs.iter().take(40) {
            h = h.u(a.1.len() as u64)
        }
        l.state(h);
        let total: usize = 20 + m.attrs.iter().map(|a| a.1.len() + 2).sum::<usize>();
        let desc = || format!("code {} with {} attributes, {} octets in total, longest value {}", m.code, m.attrs.len(), total, m.attrs.iter().map(|a| a.1.len()).max().unwrap_or(0));
        match (&got, &want) {
            (Ok(g), Some(w)) => l.check(g == w, || format!("{}: encoded as {} instead of {}", desc(), hex(g), hex(w))),
            (Err(_), None) => {}
            (Ok(g), None) => l.fail(format!("{}: encoded (to {} octets announcing {}), must be refused", desc(), g.len(), u16::from_be_bytes([g[2], g[3]]))),
            (Err(e), Some(_)) => l.fail(format!("{}: refused ({e:?}), must be encoded", desc())),
        }
        // encoding is repeatable and leaves the packet alone
        l.op();
        l.check(p.encode() == got, || format!("{}: second encode differs", desc()));
        if l.want_detail {
            l.note = format!("{} -> {}", desc(), if got.is_ok() { "encoded" } else { "refused" });
        }
    };
    let mk = |c: u8, attrs: Vec<model::Attr>| MPacket { code: c, id: 77, auth: auth16(8), attrs };
    let codes: Vec<u8> = [0u8].iter().chain(model::REGISTERED.iter()).copied().collect();
    ctx.space("codes", "every type x 0..=3 attributes x value length 0..=260", 16 * 4 * 261, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&codes);
        let n = ix.take(4);
        let v = ix.take(261) as usize;
        go(&mk(c, (0..n).map(|k| (k as u8 + 1, pattern(v, k))).collect()), b"sec", l)
    });
    let big: Vec<usize> = (254..=1100).chain(65270..=65550).chain(131060..=131085).collect();
    ctx.space("big-value", "one value of every length 254..=1100 and around 64 Ki and 128 Ki x 3 types x position", big.len() as u64 * 9, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&big);
        let c = [1u8, 2, 4][ix.take(3) as usize];
        let pos = ix.take(3) as usize;
        let mut attrs = vec![(1u8, vec![65u8]), (2, vec![66])];
        attrs.insert(pos, (9, vec![0x41; n]));
        go(&mk(c, attrs), b"sec", l)
    });
    // every total size
    ctx.space("totals", "every total size 20..=4400 (composed of maximal attributes and a rest) x 13 types", 4381 * 13, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let mut rest = ix.take(4381) as usize;
        let mut attrs = vec![];
        while rest > 0 {
            let k = if rest >= 257 || rest == 255 { 255 } else if rest >= 256 { 254 } else { rest };
            if k < 2 {
                break;
            }
            attrs.push(((attrs.len() % 256) as u8, pattern(k - 2, rest as u64)));
            rest -= k;
        }
        go(&mk(c, attrs), b"sec", l)
    });
    ctx.space("uniform", "n attributes of length v, all v 0..=253, n around the size limit", 254 * 9, |i, l| {
        let mut ix = Ix(i);
        let v = ix.take(254) as usize;
        let n = 4076 / (v + 2) - 4 + ix.take(9) as usize;
        let n = n.min(2100);
        go(&mk(1, (0..n).map(|k| (k as u8, vec![k as u8; v])).collect()), b"sec", l)
    });
    // sizes that wrap 16 bits
    let mut wraps = vec![];
    for k in 1..=ctx.pick(3, 8) {
        for d in [-40i64, -22, -21, -20, -19, -18, -2, -1, 0, 1, 2, 18, 19, 20, 21, 22, 40, 300, 1000, 4060, 4076, 4096, 4100] {
            wraps.push((65536 * k as i64 + d) as usize);
        }
    }
    ctx.space("wrap", "total sizes around multiples of 65536 (and up to 4100 above) x attribute sizes", wraps.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let total = *ix.of(&wraps);
        let unit = [255usize, 2, 17, 100][ix.take(4) as usize];
        let mut rest = total - 20;
        let mut attrs = vec![];
        while rest >= 2 {
            let mut k = unit.min(rest);
            if rest - k == 1 {
                if k > 2 {
                    k -= 1
                } else {
                    k += 1
                }
            }
            attrs.push((1u8, vec![7; k - 2]));
            rest -= k;
        }
        go(&mk(1 + (i % 5) as u8, attrs), b"sec", l)
    });
    ctx.space("secret-length", "every secret length 0..=300 x 13 types", 301 * 13, |i, l| {
        let mut ix = Ix(i);
        let s = pattern(ix.take(301) as usize, 5);
        let c = *ix.of(&model::SENDABLE);
        go(&mk(c, vec![(1, b"bob".to_vec())]), &s, l)
    });
}

pub fn c04(ctx: &Ctx) {
    let go = |m: &MPacket, secret: &[u8], l: &mut Local| {
        l.state(hash_packet(m).b(secret));
        let p = build(m, secret);
        l.op();
        match p.encode() {
            Err(e) => l.fail(format!("encode failed: {e:?}")),
            Ok(e) => {
                let w = model::encode(m, secret).unwrap();
                l.result(H::new().b(&e));
                l.check(e.len() >= 20 && e[4..20] == w[4..20], || {
                    format!("code {} id {} auth {} secret {} attrs {:?}: authenticator on the wire {} instead of {}", m.code, m.id, hex(&m.auth), hex(secret), m.attrs.iter().map(|a| (a.0, a.1.len())).collect::<Vec<_>>(), hex(&e[4..20]), hex(&w[4..20]))
                });
                l.check(e == w, || format!("encoding differs: {} instead of {}", hex(&e), hex(&w)));
                if l.want_detail {
                    l.note = format!("code {} secret {} octets, {} octets on the wire, authenticator {}", m.code, secret.len(), e.len(), hex(&e[4..20]));
                }
            }
        }
    };
    ctx.space("sizes", "13 types x every reachable total size 20..=4096", 13 * 4077, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let mut rest = ix.take(4077) as usize;
        if rest == 1 {
            rest = 2
        }
        let mut attrs = vec![];
        while rest > 0 {
            let k = if rest >= 257 || rest == 255 { 255 } else if rest == 256 { 254 } else { rest };
            attrs.push(((attrs.len() + 1) as u8, pattern(k - 2, rest as u64 + i)));
            rest -= k;
        }
        go(&MPacket { code: c, id: (i >> 3) as u8, auth: auth16(i), attrs }, &pattern(1 + (i % 40) as usize, i), l)
    });
    ctx.space("secrets", "13 types x every secret length 1..=300 x 4 attribute lists", 13 * 300 * 4, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let s = pattern(1 + ix.take(300) as usize, i);
        let k = ix.take(4);
        let attrs = (0..k).map(|k| (k as u8 + 1, pattern(7 * k as usize, k))).collect();
        go(&MPacket { code: c, id: 1, auth: auth16(i * 3), attrs }, &s, l)
    });
    ctx.space("ids-auth", "13 types x every identifier x each authenticator octet varied", 13 * 256 * 17, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let id = ix.take(256) as u8;
        let k = ix.take(17) as usize;
        let mut a = [0u8; 16];
        if k < 16 {
            a[k] = id ^ 0x35
        }
        go(&MPacket { code: c, id, auth: a, attrs: vec![(80, vec![0; 16])] }, b"topsecret", l)
    });
    let odd = odd_secrets();
    ctx.space("odd-secrets", "13 types x secrets with every octet value alone, repeated, first, in the middle and last", 13 * odd.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let s = ix.of(&odd);
        go(&MPacket { code: c, id: i as u8, auth: auth16(i), attrs: vec![(1, b"bob".to_vec())] }, s, l)
    });
    let auths = odd_auths();
    ctx.space("odd-authenticators", "13 types x authenticators of one octet value or with runs of zero octets x with and without attributes", 13 * auths.len() as u64 * 2, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let a = *ix.of(&auths);
        let attrs = if ix.take(2) == 0 { vec![] } else { vec![(80u8, vec![0u8; 16]), (1, b"bob".to_vec())] };
        go(&MPacket { code: c, id: 7, auth: a, attrs }, b"topsecret", l)
    });
    let bytes: Vec<u8> = vec![0, 1, 0x20, 0x7f, 0x80, 0xff];
    ctx.space("secret-octets", "13 types x every value of each octet of a 5-octet secret", 13 * 5 * 256, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let mut s = b"abcde".to_vec();
        let k = ix.take(5) as usize;
        s[k] = ix.take(256) as u8;
        go(&MPacket { code: c, id: 4, auth: auth16(4), attrs: vec![(1, bytes.clone())] }, &s, l)
    });
    ctx.space("lists", "13 types x every attribute list of up to 3 over 4 types x 4 values", 13 * (1 + 16 + 256 + 4096), |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let mut k = ix.0;
        let mut n = 0;
        let mut w = 1;
        while k >= w {
            k -= w;
            w *= 16;
            n += 1;
        }
        let mut jx = Ix(k);
        let attrs = (0..n)
            .map(|_| ([1u8, 26, 80, 0][jx.take(4) as usize], [vec![], vec![0], vec![0; 16], pattern(253, 4)][jx.take(4) as usize].clone()))
            .collect();
        go(&MPacket { code: c, id: 200, auth: auth16(i), attrs }, b"s", l)
    });
    // responses made from requests: every request type x every response type, chained
    ctx.space("responses", "every pair of types: response made from a decoded request (with attributes) keeps identifier, authenticator, secret; three levels", 16 * 16 * 16, |i, l| {
        let codes: Vec<u8> = [0u8].iter().chain(model::REGISTERED.iter()).copied().collect();
        let mut ix = Ix(i);
        let (a, b, c) = (*ix.of(&codes), *ix.of(&codes), *ix.of(&codes));
        let auth = auth16(i);
        let mut img = header(a, (i * 7) as u8, 28, &auth);
        img.extend([1, 4, 65, 66, 33, 4, 1, 2]);
        let secret = pattern(1 + (i % 20) as usize, i);
        let req = Packet::decode(&img, &secret).expect("decodes");
        l.op();
        let r = req.make_response_packet(code(b));
        let m = MPacket { code: b, id: (i * 7) as u8, auth, attrs: vec![] };
        l.state(hash_packet(&m).b(&secret));
        same(&r, &m, &secret, l, "response");
        l.check(req.lookup(1).is_some() && req.lookup(33).is_some(), || "the request lost attributes".into());
        let mut r2 = r.clone();
        r2.add(AVP::from_bytes(18, b"hello"));
        l.op();
        if model::SENDABLE.contains(&b) {
            let mut m2 = m.clone();
            m2.attrs.push((18, b"hello".to_vec()));
            let e = r2.encode();
            l.check(e.as_ref().ok() == model::encode(&m2, &secret).as_ref(), || format!("response to {} encoded as {e:?}", hex(&img)));
            if let Ok(e) = e {
                if !model::OWN_AUTH.contains(&b) && !model::ZERO_REQ.contains(&b) {
                    l.op();
                    l.check(Packet::is_authentic_response(&e, &img, &secret), || "the library does not accept its own response".into());
                }
            }
        }
        let r3 = r2.make_response_packet(code(c));
        l.op();
        same(&r3, &MPacket { code: c, id: (i * 7) as u8, auth, attrs: vec![] }, &secret, l, "response to a response");
    });
    // encoding twice, encoding after edits: the digest is over the current attributes
    ctx.space("after-edits", "13 types x every sequence of 4 edits: digest always over the current content", 13 * 6u64.pow(4), |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let mut m = MPacket { code: c, id: 9, auth: auth16(2), attrs: vec![] };
        let mut p = build(&m, b"k");
        for _ in 0..4 {
            match ix.take(6) {
                0 => {
                    p.add(AVP::from_bytes(1, b"a"));
                    m.attrs.push((1, b"a".to_vec()));
                }
                1 => {
                    p.extend(vec![AVP::from_bytes(2, b""), AVP::from_bytes(1, b"bc")]);
                    m.attrs.push((2, vec![]));
                    m.attrs.push((1, b"bc".to_vec()));
                }
                2 => {
                    p.delete(1);
                    m.attrs.retain(|a| a.0 != 1);
                }
                3 => {
                    p.set_identifier(10);
                    m.id = 10;
                }
                4 => {
                    let _ = p.encode();
                }
                _ => {
                    p = p.clone();
                }
            }
            l.op();
            let e = p.encode();
            l.check(e.as_ref().ok() == model::encode(&m, b"k").as_ref(), || format!("{m:?} encoded as {e:?}"));
        }
        l.state(hash_packet(&m));
    });
}

pub fn c05(ctx: &Ctx) {
    let req = |bs: &[u8], s: &[u8], l: &mut Local| {
        let want = model::authentic_request(bs, s);
        l.op();
        let got = Packet::is_authentic_request(bs, s);
        l.state(H::new().b(&bs[..bs.len().min(40)]).b(s).u(bs.len() as u64));
        l.result(H::new().u(got as u64));
        if let Some(w) = want {
            l.check(got == w, || format!("is_authentic_request({}, secret {}) = {got}", hex(bs), hex(s)));
        }
        if l.want_detail {
            l.note = format!("request {} secret {} -> {got}", hex(&bs[..bs.len().min(40)]), hex(s));
        }
    };
    let resp = |r: &[u8], q: &[u8], s: &[u8], l: &mut Local| {
        let want = model::authentic_response(r, q, s);
        l.op();
        let got = Packet::is_authentic_response(r, q, s);
        l.state(H::new().b(&r[..r.len().min(40)]).b(&q[..q.len().min(20)]).b(s).u(r.len() as u64));
        l.result(H::new().u(got as u64));
        if let Some(w) = want {
            l.check(got == w, || format!("is_authentic_response({}, request {}, secret {}) = {got}", hex(r), hex(q), hex(s)));
        }
        if l.want_detail {
            l.note = format!("response {} to {} -> {got}", hex(&r[..r.len().min(30)]), hex(&q[..q.len().min(20)]));
        }
    };
    let secrets: Vec<Vec<u8>> = vec![b"secret".to_vec(), b"x".to_vec(), vec![0], vec![0, 0], vec![0xff; 16], pattern(64, 1), pattern(129, 2)];
    let areas: Vec<Vec<model::Attr>> = vec![
        vec![],
        vec![(1, b"nemo".to_vec())],
        vec![(1, b"".to_vec()), (26, pattern(20, 2))],
        vec![(79, pattern(253, 1)), (79, pattern(100, 2)), (80, vec![0; 16])],
    ];
    // genuine, for all codes, secrets, checked under every secret
    ctx.space("genuine", "every code octet x 4 areas x 7 secrets x checked under 7 secrets and empty x digest or request-style digest", 256 * 4 * 7 * 8 * 3, |i, l| {
        let mut ix = Ix(i);
        let c = ix.take(256) as u8;
        let a = ix.of(&areas).clone();
        let s = ix.of(&secrets);
        let k = ix.take(8) as usize;
        let style = ix.take(3);
        let chk: &[u8] = if k < 7 { &secrets[k] } else { b"" };
        let own = auth16(i % 5);
        let mut bs = model::encode(&MPacket { code: 1, id: 3, auth: own, attrs: a }, s).unwrap();
        bs[0] = c;
        let seed = if style == 0 { [0; 16] } else { own };
        if style < 2 {
            let d = model::md5(&[&bs[..4], &seed, &bs[20..], s]);
            bs[4..20].copy_from_slice(&d);
        }
        req(&bs, chk, l);
        let mut q = vec![1, 3, 0, 20];
        q.extend(seed);
        resp(&bs, &q, chk, l);
        q[19] ^= 1;
        resp(&bs, &q, chk, l);
    });
    // every single bit flip, and every octet value, of genuine packets
    let mut gen: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for c in [1u8, 4, 12, 40, 43] {
        for a in &areas[..3] {
            gen.push((model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: a.clone() }, &secrets[0]).unwrap(), secrets[0].clone()));
        }
    }
    for (k, (g, s)) in gen.iter().enumerate() {
        ctx.space(&format!("tamper-req-{k}"), "each octet of a genuine request replaced by each value", g.len() as u64 * 256, |i, l| {
            let mut bs = g.clone();
            bs[(i / 256) as usize] = (i % 256) as u8;
            req(&bs, s, l);
        });
    }
    let q = model::encode(&MPacket { code: 1, id: 3, auth: auth16(7), attrs: vec![(1, b"u".to_vec())] }, &secrets[0]).unwrap();
    for c in [2u8, 3, 5, 11, 41, 42, 44, 45] {
        let g = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: areas[2].clone() }, &secrets[0]).unwrap();
        let n = g.len() as u64;
        ctx.space(&format!("tamper-resp-{c}"), "each octet of a genuine response (or of its request, or of the secret) replaced by each value", (n + 23 + 6) * 256, |i, l| {
            let (mut r, mut q, mut s) = (g.clone(), q.clone(), secrets[0].clone());
            let k = (i / 256) as usize;
            let v = (i % 256) as u8;
            if k < g.len() {
                r[k] = v
            } else if k < g.len() + 23 {
                q[k - g.len()] = v
            } else {
                s[k - g.len() - 23] = v
            }
            resp(&r, &q, &s, l);
        });
    }
    // every pair of octets (few values)
    let base: Vec<u8> = gen[4].0.clone();
    let n = base.len() as u64;
    ctx.space("tamper-pairs", "each pair of octets of a genuine accounting request changed by each pair of 6 differences", n * n * 36, |i, l| {
        let mut ix = Ix(i);
        let mut bs = base.clone();
        let d = [1u8, 2, 0x80, 0xff, 0x10, 0x55];
        let a = ix.take(n) as usize;
        let b = ix.take(n) as usize;
        bs[a] ^= *ix.of(&d);
        bs[b] ^= *ix.of(&d);
        req(&bs, &secrets[0], l);
    });
    // padding after the packet
    ctx.space("padding", "genuine and tampered packets followed by 0..=64 octets, every request and response type", 13 * 4 * 65 * 2, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let a = ix.of(&areas).clone();
        let pad = ix.take(65) as usize;
        let bad = ix.take(2);
        let mut bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: a }, &secrets[0]).unwrap();
        if bad == 1 {
            bs[10] ^= 4;
        }
        bs.extend(pattern(pad, i));
        req(&bs, &secrets[0], l);
        let mut q2 = q.clone();
        q2.extend(pattern((i % 5) as usize, 1));
        resp(&bs, &q2, &secrets[0], l);
    });
    // truncations, including below 20 octets
    ctx.space("short", "every length 0..=40 of request, response and their request, all code octets", 41 * 41 * 256, |i, l| {
        let mut ix = Ix(i);
        let a = ix.take(41) as usize;
        let b = ix.take(41) as usize;
        let c = ix.take(256) as u8;
        let mut r = pattern(a, 1);
        if a > 3 {
            r[0] = c;
            r[2] = 0;
            r[3] = a as u8;
        }
        let mut q = pattern(b, 2);
        if b > 3 {
            q[2] = 0;
            q[3] = b as u8
        }
        if a >= 20 && b >= 20 {
            let d = model::md5(&[&r[..4], &q[4..20], &r[20..], b"zz"]);
            r[4..20].copy_from_slice(&d);
        }
        resp(&r, &q, b"zz", l);
        resp(&r, &q, b"", l);
        if a >= 20 {
            let d = model::md5(&[&r[..4], &[0; 16], &r[20..], b"zz"]);
            r[4..20].copy_from_slice(&d);
        }
        req(&r, b"zz", l);
        req(&r, b"", l);
    });
    // wrong digests that agree in part: every prefix/suffix/subset of matching octets
    ctx.space("near-digest", "authenticators agreeing with the digest in every subset of the 16 octets (accounting request and accept)", 65536 * 2, |i, l| {
        let mask = i % 65536;
        let c = if i / 65536 == 0 { 4 } else { 2 };
        let mut bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: areas[1].clone() }, &secrets[0]).unwrap();
        for k in 0..16 {
            if mask >> k & 1 == 1 {
                bs[4 + k] = bs[4 + k].wrapping_add(1 + (i % 3) as u8);
            }
        }
        req(&bs, &secrets[0], l);
        resp(&bs, &q, &secrets[0], l);
    });
    // length field of any value: only that it does not panic and agrees where specified
    ctx.space("length-field", "every length field on datagrams of 20..=24, 60 octets x request types and one response", 65536 * 6 * 3, |i, l| {
        let mut ix = Ix(i);
        let len = ix.take(65536);
        let size = [20usize, 21, 22, 23, 24, 60][ix.take(6) as usize];
        let c = [1u8, 4, 2][ix.take(3) as usize];
        let mut bs = pattern(size, 3);
        bs[0] = c;
        bs[2] = (len >> 8) as u8;
        bs[3] = len as u8;
        let e = (len as usize).clamp(20, size);
        let seed = if c == 4 { [0; 16] } else { auth16(7) };
        let d = model::md5(&[&bs[..4], &seed, &bs[20..e], &secrets[0]]);
        bs[4..20].copy_from_slice(&d);
        if c == 2 {
            resp(&bs, &q, &secrets[0], l)
        } else {
            req(&bs, &secrets[0], l)
        }
    });
    ctx.space("huge", "genuine and tampered packets followed by up to 262144 octets (each number around 65536), every request and response type", 13 * 2 * 120, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let bad = ix.take(2) == 1;
        let k = ix.take(120) as usize;
        let pad = if k < 100 { 65536 - 80 + k } else { [100usize, 255, 256, 1000, 1480, 1500, 4050, 4076, 4096, 5000, 9000, 32748, 32768, 65400, 131052, 131072, 131080, 196608, 262124, 262144][k - 100] };
        let mut bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: areas[1].clone() }, &secrets[0]).unwrap();
        if bad {
            bs[21] ^= 4;
        }
        bs.resize(bs.len() + pad, 6);
        req(&bs, &secrets[0], l);
        resp(&bs, &q, &secrets[0], l);
        // a request with as much after it
        let mut q2 = q.clone();
        q2.resize(q2.len() + pad, 7);
        resp(&bs, &q2, &secrets[0], l);
    });
    ctx.space("secrets", "every secret length 1..=300 and some up to 70000 x every request and response type, right secret, one octet more or less, another last octet", 13 * 306 * 4, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let k = ix.take(306) as usize;
        let n = if k < 300 { k + 1 } else { [512usize, 1000, 4096, 65535, 65536, 70000][k - 300] };
        let s = pattern(n, 3);
        let bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: areas[1].clone() }, &s).unwrap();
        let mut chk = s.clone();
        match ix.take(4) {
            0 => {}
            1 => chk.push(0),
            2 => {
                chk.pop();
            }
            _ => chk[n - 1] ^= 1,
        }
        req(&bs, &chk, l);
        resp(&bs, &q, &chk, l);
    });
    let odd = odd_secrets();
    ctx.space("odd-secrets", "every request and response type x secrets with every octet value alone, repeated, first, in the middle and last x the right secret, without its first or last octet, with another case, with a NUL or blank after it", 13 * odd.len() as u64 * 6, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let s = ix.of(&odd);
        let chk = match ix.take(6) {
            0 => s.clone(),
            1 => s[1..].to_vec(),
            2 => s[..s.len() - 1].to_vec(),
            3 => s.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect(),
            4 => [&s[..], &[0]].concat(),
            _ => [&s[..], b" "].concat(),
        };
        let bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs: areas[1].clone() }, s).unwrap();
        req(&bs, &chk, l);
        resp(&bs, &q, &chk, l);
    });
    let auths = odd_auths();
    ctx.space("odd-authenticators", "requests and responses of every type carrying, or answering a request with, an authenticator of one octet value or with runs of zero octets", 13 * auths.len() as u64 * 2, |i, l| {
        let mut ix = Ix(i);
        let c = *ix.of(&model::SENDABLE);
        let a = *ix.of(&auths);
        let mut bs = model::encode(&MPacket { code: c, id: 3, auth: a, attrs: areas[1].clone() }, &secrets[0]).unwrap();
        let mut asked = q.clone();
        asked[4..20].copy_from_slice(&a);
        if ix.take(2) == 1 {
            bs[4..20].copy_from_slice(&a);
        }
        req(&bs, &secrets[0], l);
        resp(&bs, &asked, &secrets[0], l);
    });
    // sizes (digest block boundaries)
    ctx.space("sizes", "every total size 20..=4096, genuine and with the last octet changed, request and response", 4077 * 4, |i, l| {
        let mut ix = Ix(i);
        let bad = ix.take(2) == 1;
        let c = [4u8, 2][ix.take(2) as usize];
        let mut rest = ix.take(4077) as usize;
        if rest == 1 {
            rest = 2;
        }
        let mut attrs = vec![];
        while rest > 0 {
            let k = if rest >= 257 || rest == 255 { 255 } else if rest == 256 { 254 } else { rest };
            attrs.push((1u8, pattern(k - 2, 1)));
            rest -= k;
        }
        let mut bs = model::encode(&MPacket { code: c, id: 3, auth: auth16(7), attrs }, &secrets[5]).unwrap();
        if bad {
            let n = bs.len() - 1;
            bs[n] ^= 1;
        }
        req(&bs, &secrets[5], l);
        resp(&bs, &q, &secrets[5], l);
    });
}

/// operations of C10
fn edit(op: u64, p: &mut Packet, m: &mut Vec<model::Attr>, l: &mut Local) {
    let add = |p: &mut Packet, m: &mut Vec<model::Attr>, t: u8, v: &[u8]| {
        p.add(AVP::from_bytes(t, v));
        m.push((t, v.to_vec()));
    };
    l.op();
    match op {
        0 => add(p, m, 1, b"a"),
        1 => add(p, m, 1, b"b"),
        2 => add(p, m, 2, b"a"),
        3 => add(p, m, 255, b""),
        4 => {
            p.extend(vec![AVP::from_bytes(1, b"a"), AVP::from_bytes(2, b"")]);
            m.push((1, b"a".to_vec()));
            m.push((2, vec![]));
        }
        5 => p.extend(vec![]),
        6 => {
            p.extend(vec![AVP::from_bytes(2, b"x"), AVP::from_bytes(1, b"b"), AVP::from_bytes(2, b"x")]);
            m.push((2, b"x".to_vec()));
            m.push((1, b"b".to_vec()));
            m.push((2, b"x".to_vec()));
        }
        7 => {
            p.delete(1);
            m.retain(|a| a.0 != 1);
        }
        8 => {
            p.delete(2);
            m.retain(|a| a.0 != 2);
        }
        9 => p.delete(9),
        10 => view(p, m, l),
        11 => {
            // editing a clone leaves the original alone
            let mut c = p.clone();
            l.check(c == *p, || "a clone is not equal".into());
            c.delete(1);
            c.add(AVP::from_bytes(2, b"clone"));
            c.set_identifier(1);
        }
        12 => {
            // go on with the clone, editing the original
            let mut c = p.clone();
            std::mem::swap(&mut c, p);
            c.delete(2);
            c.add(AVP::from_bytes(1, b"orig"));
        }
        _ => {
            p.delete(255);
            m.retain(|a| a.0 != 255);
        }
    }
}

fn view(p: &Packet, m: &[model::Attr], l: &mut Local) {
    for t in [0u8, 1, 2, 3, 9, 254, 255] {
        let all: Vec<Vec<u8>> = p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect();
        let want: Vec<Vec<u8>> = m.iter().filter(|a| a.0 == t).map(|a| a.1.clone()).collect();
        l.check(all == want, || format!("lookup_all({t}) = {all:?} instead of {want:?} in {m:?}"));
        let one = p.lookup(t).map(|a| a.encode_bytes());
        l.check(one.as_ref() == want.first(), || format!("lookup({t}) = {one:?} instead of {:?} in {m:?}", want.first()));
        l.ops += 2;
    }
    l.op();
    // more than a packet can hold cannot be encoded (C03)
    let fits = 20 + m.iter().map(|a| a.1.len() + 2).sum::<usize>() <= 4096;
    match p.encode() {
        Ok(e) => {
            let got = model::parse(&e).map(|x| x.attrs);
            l.check(got.as_deref() == Some(m), || format!("encoded attributes {got:?} instead of {m:?}"));
        }
        Err(e) if fits => l.fail(format!("encode failed: {e:?}")),
        Err(_) => {}
    }
}

pub fn c10(ctx: &Ctx) {
    const OPS: u64 = 14;
    let starts = ["new", "decoded", "response"];
    for (si, s) in starts.iter().enumerate() {
        for depth in 0..=ctx.pick(5, 6) {
            ctx.space(
                &format!("{s}-depth{depth}"),
                "every sequence of this many edits out of 14, full observation at the end",
                OPS.pow(depth as u32),
                |i, l| {
                    let mut ix = Ix(i);
                    let mut m: Vec<model::Attr> = vec![];
                    let mut p = match si {
                        0 => Packet::new_with_identifier(Code::AccessRequest, b"s", 1),
                        1 => {
                            m = vec![(2, b"z".to_vec()), (1, b"y".to_vec()), (3, vec![]), (1, vec![])];
                            let img = model::encode(&MPacket { code: 1, id: 1, auth: [9; 16], attrs: m.clone() }, b"s").unwrap();
                            Packet::decode(&img, b"s").expect("decodes")
                        }
                        _ => {
                            let mut r = Packet::new_with_identifier(Code::AccountingRequest, b"s", 1);
                            r.add(AVP::from_bytes(1, b"req"));
                            r.make_response_packet(Code::AccountingResponse)
                        }
                    };
                    let mut seq = vec![];
                    for _ in 0..depth {
                        let o = ix.take(OPS);
                        seq.push(o);
                        edit(o, &mut p, &mut m, l);
                    }
                    let before = format!("{p:?}");
                    view(&p, &m, l);
                    view(&p, &m, l);
                    if seq.len() <= 3 {
                        l.check(before == format!("{p:?}"), || "reading changed the packet".into());
                    }
                    let mut h = H::new().u(si as u64);
                    for a in &m {
                        h = h.u(a.0 as u64).b(&a.1)
                    }
                    l.state(h);
                    if l.want_detail {
                        l.note = format!("start {s}, edits {seq:?} -> {m:?}");
                    }
                },
            );
        }
    }
    // every type number: delete and lookup touch that number only
    ctx.space("all-types", "every pair of attribute numbers (added, deleted), 3 attributes of the first", 65536, |i, l| {
        let (a, d) = ((i % 256) as u8, (i / 256) as u8);
        let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s", 1);
        let mut m: Vec<model::Attr> = vec![];
        for (t, v) in [(a, vec![1u8]), (a.wrapping_add(1), vec![2]), (a, vec![3]), (a.wrapping_sub(1), vec![4]), (a, vec![])] {
            p.add(AVP::from_bytes(t, &v));
            m.push((t, v));
        }
        l.op();
        p.delete(d);
        m.retain(|x| x.0 != d);
        l.state(H::new().u(a as u64).u(m.len() as u64).u(m.first().map_or(0, |x| x.1.len() as u64)));
        let (g, w) = (by_type(&p), model_by_type(&m));
        l.ops += 256;
        l.check(g == w, || format!("after deleting {d}: {g:?} instead of {w:?}"));
        l.check(p.encode().ok().and_then(|e| model::parse(&e)).map(|x| x.attrs) == Some(m.clone()), || "encode disagrees".into());
        l.check(p.lookup(a).map(|x| x.encode_bytes()) == m.iter().find(|x| x.0 == a).map(|x| x.1.clone()), || format!("lookup({a}) wrong"));
    });
    // long lists
    // sizes around every power of two up to what no packet can hold any more
    let mut sizes: Vec<u64> = (0..=520).collect();
    for e in 10..=if ctx.thorough { 17 } else { 12 } {
        sizes.extend((1u64 << e) - 2..=(1 << e) + 2);
    }
    sizes.extend([2038, 2039, 2040, 1358, 1359, 1360]);
    ctx.space("long", "lists of 0..=520 attributes and around powers of two up to 4096 (thorough: 131072) over 3 numbers, deletion of each number at each size", sizes.len() as u64 * 3, |i, l| {
        let n = sizes[(i / 3) as usize];
        let d = (i % 3) as u8 + 1;
        let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s", 1);
        let mut m: Vec<model::Attr> = vec![];
        for k in 0..n {
            let t = (k * k % 3) as u8 + 1;
            p.add(AVP::from_bytes(t, &[k as u8]));
            m.push((t, vec![k as u8]));
            l.op();
        }
        view(&p, &m, l);
        p.delete(d);
        m.retain(|x| x.0 != d);
        view(&p, &m, l);
        l.state(H::new().u(n).u(d as u64));
    });
}

pub fn c19(ctx: &Ctx) {
    let names: [(u8, &str); 15] = [
        (1, "Access-Request"),
        (2, "Access-Accept"),
        (3, "Access-Reject"),
        (4, "Accounting-Request"),
        (5, "Accounting-Response"),
        (11, "Access-Challenge"),
        (12, "Status-Server"),
        (13, "Status-Client"),
        (40, "Disconnect-Request"),
        (41, "Disconnect-ACK"),
        (42, "Disconnect-NAK"),
        (43, "CoA-Request"),
        (44, "CoA-ACK"),
        (45, "CoA-NAK"),
        (255, "Reserved"),
    ];
    ctx.space("octets", "every code octet: type, name, discriminant, decoded and encoded packets", 256, |i, l| {
        let b = i as u8;
        l.ops += 3;
        let c = Code::from(b);
        l.check(c == code(b), || format!("Code::from({b}) = {c:?}"));
        let name = names.iter().find(|x| x.0 == b).map_or("Invalid", |x| x.1);
        l.check(c.string() == name, || format!("code {b} reports the name {:?} instead of {name:?}", c.string()));
        l.check(code(b).string() == name, || format!("type of code {b} reports the name {:?} instead of {name:?}", code(b).string()));
        l.state(H::new().u(i));
        let want = if name == "Invalid" { 0 } else { b };
        l.check(c as u8 == want, || format!("{c:?} has the discriminant {}", c as u8));
        l.op();
        match Packet::decode(&header(b, 1, 20, &[0; 16]), b"s") {
            Ok(p) => {
                l.check(p.get_code() == code(b), || format!("a datagram of code {b} decodes to {:?}", p.get_code()));
                l.op();
                match p.encode() {
                    Ok(e) => l.check(model::SENDABLE.contains(&b) && e[0] == b, || format!("code {b} encoded as {}", e[0])),
                    Err(_) => l.check(!model::SENDABLE.contains(&b), || format!("code {b} not encoded")),
                }
            }
            Err(e) => l.fail(format!("code {b} not decoded: {e:?}")),
        }
        l.op();
        let p = Packet::new(code(b), b"s");
        l.check(p.get_code() == code(b), || "Packet::new changes the type".into());
        match p.encode() {
            Ok(e) => l.check(model::SENDABLE.contains(&b) && e[0] == b, || format!("new packet of code {b} encoded as {}", e[0])),
            Err(_) => l.check(!model::SENDABLE.contains(&b), || format!("new packet of code {b} not encoded")),
        }
        l.note = format!("code {b} = {c:?} {:?}", c.string());
    });
    ctx.space("pairs", "every pair of code octets: equal types exactly for equal octets or two unassigned ones", 65536, |i, l| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        l.op();
        let eq = Code::from(a) == Code::from(b);
        let inv = |x: u8| !model::REGISTERED.contains(&x);
        l.state(H::new().u(inv(a) as u64 * 256 + if inv(a) { 0 } else { a as u64 }).u(inv(b) as u64 * 256 + if inv(b) { 0 } else { b as u64 }));
        l.check(eq == (a == b || (inv(a) && inv(b))), || format!("codes {a} and {b}: equal types = {eq}"));
    });
}
