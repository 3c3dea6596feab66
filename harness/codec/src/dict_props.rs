use crate::dict::*;
use crate::dict_gen;
use crate::dict_syn;
use crate::engine::*;
use crate::model::{self, MPacket};
use crate::util::*;
use radius::core::avp::AVP;
use radius::core::packet::Packet;

const S: &[u8] = b"dictsecret";

fn stored_ok(a: &A, v: &Val, st: &[u8], auth: &[u8]) -> Result<(), String> {
    match (a.kind, v) {
        (Kind::TunnelPw, Val::TBytes(t, pw)) => {
            if st.len() >= 19 && st[0] == *t && st[1] & 0x80 != 0 && st[3..] == model::hide(&model::pad16(pw), S, &[auth, &st[1..3]].concat())[..] {
                Ok(())
            } else {
                Err(format!("{v:?} stored as {}", hex(st)))
            }
        }
        (k, v) => {
            let w = write(k, v, S, auth).map_err(|_| "harness: bad sample".to_string())?;
            if w == st {
                Ok(())
            } else {
                Err(format!("{v:?} stored as {} instead of {}", hex(st), hex(&w)))
            }
        }
    }
}

fn wire(p: &Packet) -> Result<Vec<model::Attr>, String> {
    let e = p.encode().map_err(|e| format!("encode: {e:?}"))?;
    model::parse(&e).map(|m| m.attrs).ok_or("malformed encoding".into())
}

fn fresh(seed: u64) -> (Packet, [u8; 16]) {
    let a = auth16(seed);
    (build(&MPacket { code: 1, id: 1, auth: a, attrs: vec![] }, S), a)
}

/// The value octets the model would store, or (for the salted password) any correct ones.
pub fn stored_any(a: &A, v: &Val, auth: &[u8]) -> Vec<u8> {
    match (a.kind, v) {
        (Kind::TunnelPw, Val::TBytes(t, pw)) => [vec![*t, 0x93, 0x31], model::hide(&model::pad16(pw), S, &[auth, &[0x93, 0x31]].concat())].concat(),
        (Kind::Concat, Val::Bytes(b)) => b.clone(),
        (k, v) => write(k, v, S, auth).unwrap(),
    }
}

pub fn c11(ctx: &Ctx) {
    accessors(ctx, "", dict_gen::attrs(), dict_gen::values());
}

/// The modules generated from the shipped and from synthetic dictionaries.
pub fn c15(ctx: &Ctx) {
    accessors(ctx, "shipped-", dict_gen::attrs(), dict_gen::values());
    continued(ctx, "shipped-", dict_gen::attrs());
    accessors(ctx, "synthetic-", dict_syn::attrs(), dict_syn::values());
    let mut a: Vec<A> = dict_syn::attrs().into_iter().filter(|a| a.kind == Kind::Concat).collect();
    a.truncate(3);
    continued(ctx, "synthetic-", a);
}

fn accessors(ctx: &Ctx, pre: &str, attrs: Vec<A>, vals: Vec<(&'static str, &'static str, &'static str, u64, u64)>) {
    let na = attrs.len() as u64;
    ctx.space(&format!("{pre}numbers"), "every attribute constant has the registered number", na, |i, l| {
        let a = &attrs[i as usize];
        l.op();
        l.state(H::new().u(i));
        l.check(a.konst == a.num, || format!("{}::{} type constant is {} instead of {}", a.module, a.name, a.konst, a.num));
        l.note = format!("{} {} = {}", a.module, a.name, a.konst);
    });
    ctx.space(&format!("{pre}values"), "every value constant has the registered number", vals.len() as u64, |i, l| {
        let v = &vals[i as usize];
        l.op();
        l.state(H::new().u(i).u(1));
        l.check(v.3 == v.4, || format!("{} {} {} is {} instead of {}", v.0, v.1, v.2, v.4, v.3));
        l.note = format!("{} {} {} = {}", v.0, v.1, v.2, v.4);
    });
    let smp: Vec<Vec<Val>> = attrs.iter().map(|a| samples(a.kind)).collect();
    let mx = smp.iter().map(|s| s.len()).max().unwrap_or(0) as u64;
    // each attribute x each sample value: wire form, lookups, order, deletion
    ctx.space(&format!("{pre}accessors"), "every attribute x every sample value: stored on the wire, looked up first / all, among others, deleted", na * mx, |i, l| {
        let mut ix = Ix(i);
        let k = ix.take(na) as usize;
        let a = &attrs[k];
        let Some(v) = smp[k].get(ix.0 as usize) else { return };
        let (Some(add), Some(lk)) = (a.add, a.lookup) else { return };
        let d = || format!("{} {}", a.module, a.name);
        l.state(H::new().u(k as u64).u(i));
        let (mut p, auth) = fresh(i);
        l.ops += 3;
        l.check(lk(&p).is_none(), || format!("{}: lookup in an empty packet", d()));
        let r = add(&mut p, v, i % 2 == 0);
        l.check(r.is_ok(), || format!("{}: adding {v:?} failed: {r:?}", d()));
        match wire(&p) {
            Ok(w) if a.kind == Kind::Concat => {
                let cat: Vec<u8> = w.iter().flat_map(|x| x.1.clone()).collect();
                l.check(w.iter().all(|x| x.0 == a.num) && Val::Bytes(cat.clone()) == *v, || format!("{}: {v:?} on the wire as {w:?}", d()));
                if w.is_empty() {
                    return;
                }
            }
            Ok(w) => {
                if w.len() != 1 || w[0].0 != a.num {
                    return l.fail(format!("{}: adding {v:?} put {w:?} on the wire", d()));
                }
                if let Err(e) = stored_ok(a, v, &w[0].1, &auth) {
                    l.fail(format!("{}: {e}", d()));
                }
            }
            Err(e) => return l.fail(format!("{}: {e}", d())),
        }
        let g = lk(&p);
        l.check(matches!(&g, Some(Ok(x)) if x == v), || format!("{}: {v:?} looked up as {g:?}", d()));
        // a second value, with neighbours around
        let (mut p, auth) = fresh(i);
        let v2 = &smp[k][(ix.0 as usize + 1) % smp[k].len()];
        let (st1, st2) = (stored_any(a, v, &auth), stored_any(a, v2, &auth));
        let nb = [a.num.wrapping_sub(1), a.num.wrapping_add(1), a.num ^ 0x80, a.num ^ 0x40];
        let mut lst: Vec<model::Attr> = vec![];
        for t in nb {
            lst.push((t, b"\x01other".to_vec()));
        }
        lst.push((a.num, st1));
        for t in nb {
            lst.push((t, vec![]));
        }
        lst.push((a.num, st2));
        lst.push((nb[0], vec![9]));
        for (t, v) in &lst {
            p.add(AVP::from_bytes(*t, v));
        }
        l.ops += 3;
        let g = lk(&p);
        if a.kind == Kind::Concat {
            if let (Val::Bytes(x), Val::Bytes(y)) = (v, v2) {
                let c = [&x[..], y].concat();
                l.check(matches!(&g, Some(Ok(Val::Bytes(z))) if *z == c), || format!("{}: {g:?}", d()));
            }
        } else {
            l.check(matches!(&g, Some(Ok(x)) if x == v), || format!("{}: first of {v:?}, {v2:?} looked up as {g:?}", d()));
        }
        if let Some(la) = a.lookup_all {
            let g = la(&p);
            l.check(matches!(&g, Ok(x) if x[..] == [v.clone(), v2.clone()]), || format!("{}: all of {v:?}, {v2:?} looked up as {g:?}", d()));
        }
        (a.delete)(&mut p);
        l.check(lk(&p).is_none(), || format!("{}: still there after deletion", d()));
        lst.retain(|x| x.0 != a.num);
        let w = wire(&p);
        l.check(w.as_ref() == Ok(&lst), || format!("{}: after deletion {w:?} instead of {lst:?}", d()));
        if l.want_detail {
            l.note = format!("{} number {} kind {:?} value {}", d(), a.num, a.kind, format!("{v:?}").chars().take(60).collect::<String>());
        }
    });
    // raw stored values read in the dictionary's type
    let raws = raws();
    ctx.space(&format!("{pre}reading"), "every attribute x every raw stored value: read in the dictionary's type", na * raws.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let raw = ix.of(&raws);
        let (Some(lk), Some(la)) = (a.lookup, a.lookup_all) else { return };
        let (mut p, auth) = fresh(1);
        p.add(AVP::from_bytes(a.num, raw));
        l.ops += 2;
        l.state(H::new().u(a.num as u64).b(raw).u(4));
        let (g, ga) = (lk(&p), la(&p));
        match read(a.kind, raw, S, &auth) {
            None => {}
            Some(Ok(w)) => l.check(matches!(&g, Some(Ok(x)) if *x == w) && matches!(&ga, Ok(x) if x[..] == [w.clone()]), || format!("{} {}: stored {} read as {g:?} / {ga:?} instead of {w:?}", a.module, a.name, hex(raw))),
            Some(Err(_)) => l.check(matches!(&g, Some(Err(_))) && ga.is_err(), || format!("{} {}: stored {} read as {g:?} / {ga:?}, must be an error", a.module, a.name, hex(raw))),
        }
    });
    // refused values
    ctx.space(&format!("{pre}refused"), "every length-checked attribute x every length 0..=260: accepted exactly if allowed, nothing added otherwise", na * 261, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let n = ix.take(261) as usize;
        let b = pattern(n, 3).iter().map(|x| x | 1).collect::<Vec<_>>();
        let (ok, v) = match a.kind {
            Kind::Fixed(k) => (n == k, Val::Bytes(b)),
            Kind::Ipv4Prefix => (n == 4, Val::Bytes(b)),
            Kind::Ipv6Prefix => (n <= 16, Val::Bytes(b)),
            Kind::UserPw => (n <= 128, Val::Bytes(b)),
            Kind::TunnelPw => (n <= 240, Val::TBytes(1, b)),
            _ => return,
        };
        let (mut p, _) = fresh(2);
        l.op();
        l.state(H::new().u(a.num as u64).u(n as u64).u(5));
        let r = (a.add.unwrap())(&mut p, &v, true);
        l.check(r.is_ok() == ok, || format!("{} {}: value of {n} octets: {r:?}", a.module, a.name));
        let w = wire(&p);
        l.check(matches!(&w, Ok(x) if x.len() == ok as usize), || format!("{} {}: value of {n} octets left {w:?}", a.module, a.name));
    });
    // every pair of attributes: independent unless they share the number
    ctx.space(&format!("{pre}pairs"), "every ordered pair of attributes: adding/deleting one does not show through the other", na * na, |i, l| {
        let (a, b) = (&attrs[(i % na) as usize], &attrs[(i / na) as usize]);
        let v = smp[(i % na) as usize].last().cloned();
        let (mut p, auth) = fresh(3);
        match (&v, a.add) {
            (Some(v), Some(add)) => {
                let _ = add(&mut p, v, true);
            }
            _ => p.add(AVP::from_bytes(a.num, b"\0\0\0\x09\x01\x03x")),
        }
        l.ops += 2;
        l.state(H::new().u(i).u(6));
        let d = || format!("{} {} and {} {}", a.module, a.name, b.module, b.name);
        if a.num != b.num {
            if let Some(lk) = b.lookup {
                let g = lk(&p);
                l.check(g.is_none(), || format!("{}: {g:?}", d()));
            }
            if let Some(la) = b.lookup_all {
                let g = la(&p);
                l.check(g == Ok(vec![]), || format!("{}: {g:?}", d()));
            }
            let before = wire(&p);
            (b.delete)(&mut p);
            l.check(wire(&p) == before, || format!("{}: deleting the second removed the first", d()));
        } else {
            (b.delete)(&mut p);
            l.check(wire(&p) == Ok(vec![]), || format!("{}: not deleted", d()));
        }
        let _ = auth;
    });
}

pub fn c12(ctx: &Ctx) {
    continued(ctx, "", dict_gen::attrs());
}

fn continued(ctx: &Ctx, pre: &str, attrs: Vec<A>) {
    let attrs: Vec<A> = attrs.into_iter().filter(|a| a.kind == Kind::Concat).collect();
    let na = attrs.len() as u64;
    let add = |a: &A, p: &mut Packet, v: &[u8]| {
        let _ = (a.add.unwrap())(p, &Val::Bytes(v.to_vec()), false);
    };
    let look = |a: &A, p: &Packet| match (a.lookup.unwrap())(p) {
        None => None,
        Some(Ok(Val::Bytes(b))) => Some(b),
        _ => panic!("harness: kind"),
    };
    let stored = |a: &A, p: &Packet| p.lookup_all(a.num).iter().map(|x| x.encode_bytes()).collect::<Vec<_>>();
    let total_others = |a: &A, p: &Packet| (0..=255u8).filter(|t| *t != a.num).map(|t| p.lookup_all(t).len()).sum::<usize>();
    ctx.space(&format!("{pre}lengths"), "every attribute x every value length 0..=4600 (and around 64 Ki): fragments, reassembly, wire", na * 4660, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let mut n = ix.take(4660) as usize;
        if n > 4600 {
            n = 65500 + n - 4600
        }
        let v = pattern(n, i);
        let (mut p, _) = fresh(1);
        l.ops += 2;
        l.state(H::new().u(a.num as u64).u(n as u64));
        add(a, &mut p, &v);
        let st = stored(a, &p);
        let d = || format!("{} {} value of {n} octets", a.module, a.name);
        l.check(st.concat() == v, || format!("{}: fragments {:?} do not concatenate to it", d(), st.iter().map(|s| s.len()).collect::<Vec<_>>()));
        l.check(st.iter().all(|s| (1..=253).contains(&s.len())), || format!("{}: fragment sizes {:?}", d(), st.iter().map(|s| s.len()).collect::<Vec<_>>()));
        l.check(total_others(a, &p) == 0, || format!("{}: other attributes appeared", d()));
        let g = look(a, &p);
        l.check(g.as_deref() == if n == 0 { None } else { Some(&v[..]) }, || format!("{}: looked up {:?} octets", d(), g.as_ref().map(|x| x.len())));
        let size = 20 + n + 2 * st.len();
        if size <= 4096 {
            l.op();
            match p.encode().ok().and_then(|e| Packet::decode(&e, S).ok()) {
                Some(q) => l.check(look(a, &q).as_deref() == if n == 0 { None } else { Some(&v[..]) }, || format!("{}: differs after the wire", d())),
                None => l.fail(format!("{}: did not survive the wire", d())),
            }
        }
        if l.want_detail {
            l.note = format!("{}: {} fragments", d(), st.len());
        }
    });
    // arbitrary fragmentations with other attributes in between
    let pieces: [&[u8]; 4] = [b"", b"a", b"bc", b"\0"];
    for n in 0..=ctx.pick(5, 7) {
        // each slot: a piece of the attribute (4) or a foreign attribute (4)
        ctx.space(&format!("{pre}fragmentations-{n}"), "every packet of n attributes, each a piece (4 contents) of the attribute or a foreign attribute (4 numbers)", na * 8u64.pow(n as u32), |i, l| {
            let mut ix = Ix(i);
            let a = ix.of(&attrs);
            let (mut p, _) = fresh(1);
            let mut want: Option<Vec<u8>> = None;
            for _ in 0..n {
                let k = ix.take(8) as usize;
                if k < 4 {
                    p.add(AVP::from_bytes(a.num, pieces[k]));
                    want.get_or_insert_with(Vec::new).extend(pieces[k]);
                } else {
                    let t = [a.num.wrapping_sub(1), a.num.wrapping_add(1), 79 + 60, 1][k - 4];
                    p.add(AVP::from_bytes(t, b"zz"));
                }
            }
            l.op();
            l.state(H::new().u(i).u(n));
            let g = look(a, &p);
            l.check(g == want, || format!("{} {} case {i}: {g:?} instead of {want:?}", a.module, a.name));
            l.op();
            (a.delete)(&mut p);
            l.check(look(a, &p).is_none(), || "not deleted".into());
        });
    }
    // two values one after the other, fragments of sizes around the limit
    let ls: Vec<usize> = vec![0, 1, 2, 252, 253, 254, 255, 505, 506, 507, 508, 758, 759, 760, 1012, 1500];
    ctx.space(&format!("{pre}two-values"), "two additions of every pair of lengths, with foreign attributes around", na * 16 * 16, |i, l| {
        let mut ix = Ix(i);
        let a = ix.of(&attrs);
        let (x, y) = (pattern(*ix.of(&ls), 1), pattern(*ix.of(&ls), 2));
        let (mut p, _) = fresh(1);
        p.add(AVP::from_bytes(1, b"u"));
        add(a, &mut p, &x);
        p.add(AVP::from_bytes(2, b"u"));
        add(a, &mut p, &y);
        l.ops += 2;
        l.state(H::new().u(i).u(99));
        let w = [x, y].concat();
        let g = look(a, &p);
        l.check(g.as_deref() == if w.is_empty() { None } else { Some(&w[..]) }, || format!("{}: {:?} octets instead of {}", a.name, g.as_ref().map(|x| x.len()), w.len()));
        l.check(stored(a, &p).iter().all(|s| (1..=253).contains(&s.len())), || "fragment sizes".into());
        l.check(p.lookup_all(1).len() == 1 && p.lookup_all(2).len() == 1, || "foreign attributes changed".into());
    });
    // the three attributes are independent
    ctx.space(&format!("{pre}independent"), "all three attributes in one packet, every order and 5 lengths each", na * na * na * 125, |i, l| {
        let mut ix = Ix(i);
        let o = [ix.take(na) as usize, ix.take(na) as usize, ix.take(na) as usize];
        let (mut p, _) = fresh(1);
        let mut want: Vec<Option<Vec<u8>>> = attrs.iter().map(|_| None).collect();
        for k in o {
            let v = pattern([1usize, 253, 254, 600, 10][ix.take(5) as usize], k as u64);
            add(&attrs[k], &mut p, &v);
            want[k].get_or_insert_with(Vec::new).extend(&v);
        }
        l.ops += 3;
        l.state(H::new().u(i).u(98));
        for (k, a) in attrs.iter().enumerate() {
            l.check(look(a, &p) == want[k], || format!("{} differs", a.name));
        }
    });
}
