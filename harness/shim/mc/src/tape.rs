//! Every outcome of the random generator, for what the library draws from it.
use crate::engine::*;
use crate::model;
use crate::util::{auth16, by_type, code, pattern};
use mcrand::{set_tape, Tape};
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::tag::Tag;

fn with<T>(base: u8, over: &[(usize, u8)], f: impl FnOnce() -> T) -> (T, usize) {
    set_tape(Some(Tape { base, over: over.to_vec(), used: 0 }));
    let r = no_panic(f);
    let t = set_tape(None);
    match r {
        Ok(r) => (r, t.map_or(0, |t| t.used)),
        Err(p) => panic!("{p}"),
    }
}
/// authenticator and identifier
fn octets(p: &Packet) -> Vec<u8> {
    let mut v = p.get_authenticator().clone();
    v.push(p.get_identifier());
    v
}
fn name(o: usize) -> String {
    if o == 16 {
        "the identifier".into()
    } else {
        format!("authenticator octet {o}")
    }
}
const MAXPOS: usize = 400;

pub fn c17(ctx: &Ctx) {
    let codes: Vec<u8> = [0u8].iter().chain(model::REGISTERED.iter()).copied().collect();
    let nb = ctx.pick(1, 8);
    // one packet, or the n-th of a series
    ctx.space(
        "tapes",
        "every type x identifier asked for or not x first, second or third packet of a series x base tape; each random octet drawn for it takes all 256 values: every octet of authenticator and identifier takes all 256 values and none is a function of another",
        codes.len() as u64 * 2 * 3 * nb,
        |i, l| {
            let mut ix = Ix(i);
            let c = *ix.of(&codes);
            let asked = ix.take(2) == 1;
            let nth = ix.take(3) as usize;
            let base = [2u8, 0, 1, 3, 5, 7, 11, 13][ix.0 as usize];
            let mk = || if asked { Packet::new_with_identifier(code(c), b"secret", 77) } else { Packet::new(code(c), b"secret") };
            let gen = |over: &[(usize, u8)]| {
                with(base, over, || {
                    for _ in 0..nth {
                        mk();
                    }
                    let a = mcrand::used();
                    let p = mk();
                    (p, a)
                })
            };
            let ((p, first), used) = gen(&[]);
            l.op();
            l.check(by_type(&p).is_empty(), || "a new packet has attributes".into());
            l.check(p.get_code() == code(c) && p.get_secret() == b"secret", || "type or secret differs".into());
            let o0 = octets(&p);
            if o0.len() != 17 {
                return l.fail(format!("authenticator of {} octets", o0.len() - 1));
            }
            let n = if asked { 16 } else { 17 };
            if asked {
                l.check(o0[16] == 77, || format!("identifier {} instead of 77", o0[16]));
            }
            // octets that do not come from the tape: another generator, judged elsewhere
            let mut wild = [false; 17];
            for _ in 0..2 {
                let o = octets(&gen(&[]).0 .0);
                l.op();
                for k in 0..n {
                    wild[k] |= o[k] != o0[k];
                }
            }
            if wild[..n].iter().any(|w| *w) || used == first {
                l.note = format!("draws {first}..{used}; not all octets come from the controlled generator");
                if wild[..n].iter().all(|w| *w) {
                    return;
                }
            }
            let mut reach = vec![[false; 256]; n];
            let mut pairs = vec![std::collections::HashSet::new(); n * n];
            for pos in first..used.min(first + MAXPOS) {
                for v in 0..=255u8 {
                    let ((p, _), _) = gen(&[(pos, v)]);
                    l.op();
                    let o = octets(&p);
                    l.state(H::new().b(&o).u(c as u64));
                    if asked && o[16] != 77 {
                        return l.fail(format!("identifier {} instead of 77", o[16]));
                    }
                    for a in 0..n {
                        reach[a][o[a] as usize] = true;
                        for b in 0..a {
                            if pairs[a * n + b].len() <= 256 {
                                pairs[a * n + b].insert((o[a], o[b]));
                            }
                        }
                    }
                }
            }
            for a in 0..n {
                if wild[a] {
                    continue;
                }
                let k = reach[a].iter().filter(|x| **x).count();
                l.check(k == 256, || format!("packet {} of a series, type {c}: {} takes {k} values only ({} never)", nth + 1, name(a), reach[a].iter().position(|x| !x).unwrap_or(0)));
                for b in 0..a {
                    if !wild[b] {
                        l.check(pairs[a * n + b].len() > 256, || format!("packet {} of a series, type {c}: {} is determined by {}", nth + 1, name(a), name(b)));
                    }
                }
            }
            if l.note.is_empty() {
                l.note = format!("code {c}, packet {} of a series, draws {first}..{used}: all values reached", nth + 1);
            }
        },
    );
}

pub fn c07(ctx: &Ctx) {
    let lens: Vec<usize> = if ctx.thorough { vec![0, 1, 7, 15, 16, 17, 31, 32, 33, 64, 128, 200, 239, 240] } else { vec![0, 1, 16, 17, 240] };
    let secret = b"salted secret".to_vec();
    let auth = auth16(99);
    ctx.space("salts", "every outcome of the draws that make up the salt (all 65536 pairs of octets) x password lengths x tag", 65536 * lens.len() as u64 * 2, |i, l| {
        let mut ix = Ix(i);
        let pair = ix.take(65536);
        let n = *ix.of(&lens);
        let tag = if ix.take(2) == 0 { None } else { Some(0x11u8) };
        let pw: Vec<u8> = pattern(n, 3).iter().map(|b| b | 1).collect();
        let mk = |over: &[(usize, u8)]| {
            with(2, over, || AVP::from_tunnel_password(69, tag.map(Tag::new).as_ref(), &pw, &secret, &auth).map(|a| a.encode_bytes()).map_err(|e| format!("{e:?}")))
        };
        thread_local!(static POS: std::cell::RefCell<Option<(usize, usize)>> = const { std::cell::RefCell::new(None) });
        let (p0, p1) = POS.with(|c| {
            *c.borrow_mut().get_or_insert_with(|| {
                // which draws decide the two octets of the salt
                let base = mk(&[]);
                let mut at = [0usize, 1];
                for k in 0..base.1.min(64) {
                    if let (Ok(a), Ok(b)) = (&base.0, &mk(&[(k, 0x5a)]).0) {
                        for o in 0..2 {
                            if a.len() > 2 && b.len() > 2 && a[1 + o] != b[1 + o] {
                                at[o] = k;
                            }
                        }
                    }
                }
                (at[0], at[1])
            })
        });
        let (r, _) = mk(&[(p0, (pair & 255) as u8), (p1, (pair >> 8) as u8)]);
        l.op();
        let st = match r {
            Ok(s) => s,
            Err(e) => return l.fail(format!("password of {n} octets refused: {e}")),
        };
        l.state(H::new().b(&st));
        let good = st.len() >= 19 && st[0] == tag.unwrap_or(0) && st[1] & 0x80 != 0 && st[3..] == model::hide(&model::pad16(&pw), &secret, &[&auth[..], &st[1..3]].concat())[..];
        l.check(good, || format!("password of {n} octets stored as {}", hex(&st)));
        let back = AVP::from_bytes(69, &st).encode_tunnel_password(&secret, &auth).map(|(p, t)| (p, t.get_value())).map_err(|e| format!("{e:?}"));
        l.check(back == Ok((pw.clone(), tag.unwrap_or(0))), || format!("stored as {}, read back as {back:?}", hex(&st)));
        if l.want_detail {
            l.note = format!("password of {n} octets, salt {}", hex(&st[1..3]));
        }
    });
}
