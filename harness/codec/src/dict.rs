//! Uniform view of the dictionary accessors, and the model of each value type.
use crate::model;
use chrono::{DateTime, TimeZone, Utc};
use radius::core::packet::Packet;
use radius::core::tag::Tag;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    String,
    UserPw,
    TString,
    TunnelPw,
    Octets,
    Fixed(usize),
    Concat,
    Ipv4,
    Ipv4Prefix,
    Ipv6,
    Ipv6Prefix,
    Date,
    Integer,
    TInteger,
    Short,
    Vsa,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bytes(Vec<u8>),
    Str(String),
    TStr(Option<u8>, String),
    TBytes(u8, Vec<u8>),
    U32(u32),
    TU32(u8, u32),
    U16(u16),
    V4([u8; 4]),
    V6([u8; 16]),
    Date(i64),
}

pub type Res<T> = Result<T, String>;

pub struct A {
    pub module: &'static str,
    pub name: &'static str,
    pub num: u8,
    pub konst: u8,
    pub kind: Kind,
    pub add: Option<fn(&mut Packet, &Val, bool) -> Res<()>>,
    pub lookup: Option<fn(&Packet) -> Option<Res<Val>>>,
    pub lookup_all: Option<fn(&Packet) -> Res<Vec<Val>>>,
    pub delete: fn(&mut Packet),
}

pub trait Unres<T> {
    fn unres(self) -> Res<T>;
}
impl Unres<()> for () {
    fn unres(self) -> Res<()> {
        Ok(())
    }
}
impl<T, E: std::fmt::Debug> Unres<T> for Result<T, E> {
    fn unres(self) -> Res<T> {
        self.map_err(|e| format!("{e:?}"))
    }
}
impl Unres<Vec<u8>> for Vec<u8> {
    fn unres(self) -> Res<Vec<u8>> {
        Ok(self)
    }
}
impl Unres<Vec<Vec<u8>>> for Vec<Vec<u8>> {
    fn unres(self) -> Res<Vec<Vec<u8>>> {
        Ok(self)
    }
}

/// `bool` argument of `add`: give an explicit tag also where the tag is zero
pub fn tag_of(t: u8, explicit: bool) -> Option<Tag> {
    if t == 0 && !explicit {
        None
    } else {
        Some(Tag::new(t))
    }
}

#[macro_export]
macro_rules! a {
    (@mk $k:expr, $m:ident $name:literal $num:literal $c:ident, $add:expr, $lk:expr, $la:expr, $del:ident) => {
        A { module: stringify!($m), name: $name, num: $num, konst: radius::core::$m::$c, kind: $k,
            add: $add, lookup: $lk, lookup_all: $la, delete: |p| radius::core::$m::$del(p) }
    };
    (@gen $k:expr, $m:ident $name:literal $num:literal $c:ident $add:ident $lk:ident $la:ident $del:ident, |$v:ident| $conv:expr, $pat:pat => $arg:expr) => {
        a!(@mk $k, $m $name $num $c,
            Some(|p, v, _| match v { $pat => Unres::<()>::unres(radius::core::$m::$add(p, $arg)), _ => panic!("harness: wrong value kind") }),
            Some(|p| radius::core::$m::$lk(p).map(|r| r.unres().map(|$v| $conv))),
            Some(|p| radius::core::$m::$la(p).unres().map(|r| r.into_iter().map(|$v| $conv).collect())),
            $del)
    };
    (string 0 $($t:tt)*) => { a!(@gen Kind::String, $($t)*, |v| Val::Str(v), Val::Str(x) => x) };
    (octets 0 $($t:tt)*) => { a!(@gen Kind::Octets, $($t)*, |v| Val::Bytes(v), Val::Bytes(x) => x) };
    (fixed $n:literal $($t:tt)*) => { a!(@gen Kind::Fixed($n), $($t)*, |v| Val::Bytes(v), Val::Bytes(x) => x) };
    (userpw 0 $($t:tt)*) => { a!(@gen Kind::UserPw, $($t)*, |v| Val::Bytes(v), Val::Bytes(x) => x) };
    (ipv4 0 $($t:tt)*) => { a!(@gen Kind::Ipv4, $($t)*, |v| Val::V4(v.octets()), Val::V4(x) => &std::net::Ipv4Addr::from(*x)) };
    (ipv6 0 $($t:tt)*) => { a!(@gen Kind::Ipv6, $($t)*, |v| Val::V6(v.octets()), Val::V6(x) => &std::net::Ipv6Addr::from(*x)) };
    (ipv4prefix 0 $($t:tt)*) => { a!(@gen Kind::Ipv4Prefix, $($t)*, |v| Val::Bytes(v), Val::Bytes(x) => x) };
    (ipv6prefix 0 $($t:tt)*) => { a!(@gen Kind::Ipv6Prefix, $($t)*, |v| Val::Bytes(v), Val::Bytes(x) => x) };
    (date 0 $($t:tt)*) => { a!(@gen Kind::Date, $($t)*, |v| Val::Date(v.timestamp()), Val::Date(x) => &mkdate(*x)) };
    (integer 0 $($t:tt)*) => { a!(@gen Kind::Integer, $($t)*, |v| Val::U32(v as u32), Val::U32(x) => *x) };
    (short 0 $($t:tt)*) => { a!(@gen Kind::Short, $($t)*, |v| Val::U16(v), Val::U16(x) => *x) };
    (tinteger 0 $m:ident $name:literal $num:literal $c:ident $add:ident $lk:ident $la:ident $del:ident) => {
        a!(@mk Kind::TInteger, $m $name $num $c,
            Some(|p, v, e| match v { Val::TU32(t, x) => Unres::<()>::unres(radius::core::$m::$add(p, tag_of(*t, e).as_ref(), *x)), _ => panic!("harness: wrong value kind") }),
            Some(|p| radius::core::$m::$lk(p).map(|r| r.unres().map(|(v, t)| Val::TU32(t.get_value(), v as u32)))),
            Some(|p| radius::core::$m::$la(p).unres().map(|r| r.into_iter().map(|(v, t)| Val::TU32(t.get_value(), v as u32)).collect())),
            $del)
    };
    (tstring 0 $m:ident $name:literal $num:literal $c:ident $add:ident $lk:ident $la:ident $del:ident) => {
        a!(@mk Kind::TString, $m $name $num $c,
            Some(|p, v, _| match v { Val::TStr(t, x) => Unres::<()>::unres(radius::core::$m::$add(p, t.map(radius::core::tag::Tag::new).as_ref(), x)), _ => panic!("harness: wrong value kind") }),
            Some(|p| radius::core::$m::$lk(p).map(|r| r.unres().map(|(v, t)| Val::TStr(t.map(|t| t.get_value()), v)))),
            Some(|p| radius::core::$m::$la(p).unres().map(|r| r.into_iter().map(|(v, t)| Val::TStr(t.map(|t| t.get_value()), v)).collect())),
            $del)
    };
    (tunnelpw 0 $m:ident $name:literal $num:literal $c:ident $add:ident $lk:ident $la:ident $del:ident) => {
        a!(@mk Kind::TunnelPw, $m $name $num $c,
            Some(|p, v, e| match v { Val::TBytes(t, x) => Unres::<()>::unres(radius::core::$m::$add(p, tag_of(*t, e).as_ref(), x)), _ => panic!("harness: wrong value kind") }),
            Some(|p| radius::core::$m::$lk(p).map(|r| r.unres().map(|(v, t)| Val::TBytes(t.get_value(), v)))),
            Some(|p| radius::core::$m::$la(p).unres().map(|r| r.into_iter().map(|(v, t)| Val::TBytes(t.get_value(), v)).collect())),
            $del)
    };
    (concat 0 $m:ident $name:literal $num:literal $c:ident $add:ident $lk:ident $del:ident) => {
        a!(@mk Kind::Concat, $m $name $num $c,
            Some(|p, v, _| match v { Val::Bytes(x) => Unres::<()>::unres(radius::core::$m::$add(p, x)), _ => panic!("harness: wrong value kind") }),
            Some(|p| radius::core::$m::$lk(p).map(|v| Ok(Val::Bytes(v)))),
            None, $del)
    };
    (vsa 0 $m:ident $name:literal $num:literal $c:ident $del:ident) => {
        a!(@mk Kind::Vsa, $m $name $num $c, None, None, None, $del)
    };
}

pub fn mkdate(s: i64) -> DateTime<Utc> {
    Utc.timestamp_opt(s, 0).unwrap()
}

/// What reading `stored` as `kind` has to yield. None: the properties leave it open.
pub fn read(kind: Kind, stored: &[u8], secret: &[u8], auth: &[u8]) -> Option<Res<Val>> {
    let bad = || Some(Err(String::new()));
    let n = stored.len();
    match kind {
        Kind::String => match std::str::from_utf8(stored) {
            Ok(s) => Some(Ok(Val::Str(s.to_string()))),
            Err(_) => bad(),
        },
        Kind::Octets | Kind::Fixed(_) => Some(Ok(Val::Bytes(stored.to_vec()))),
        Kind::UserPw => {
            if !(16..=128).contains(&n) || secret.is_empty() || auth.len() != 16 {
                bad()
            } else if n % 16 != 0 {
                None
            } else {
                Some(Ok(Val::Bytes(
                    model::rtrim0(&model::reveal(stored, secret, auth)).to_vec(),
                )))
            }
        }
        Kind::TunnelPw => {
            if !(19..=243).contains(&n)
                || (n - 3) % 16 != 0
                || stored[1] & 0x80 == 0
                || secret.is_empty()
                || auth.len() != 16
            {
                bad()
            } else {
                let seed = [auth, &stored[1..3]].concat();
                Some(Ok(Val::TBytes(
                    stored[0],
                    model::rtrim0(&model::reveal(&stored[3..], secret, &seed)).to_vec(),
                )))
            }
        }
        Kind::TString => {
            if n == 0 || stored[0] == 0 {
                return bad();
            }
            let (t, rest) = if stored[0] <= 0x1f {
                (Some(stored[0]), &stored[1..])
            } else {
                (None, stored)
            };
            match std::str::from_utf8(rest) {
                Ok(s) => Some(Ok(Val::TStr(t, s.to_string()))),
                Err(_) => bad(),
            }
        }
        Kind::Ipv4 => match <[u8; 4]>::try_from(stored) {
            Ok(a) => Some(Ok(Val::V4(a))),
            Err(_) => bad(),
        },
        Kind::Ipv6 => match <[u8; 16]>::try_from(stored) {
            Ok(a) => Some(Ok(Val::V6(a))),
            Err(_) => bad(),
        },
        Kind::Ipv4Prefix => {
            if n == 6 {
                Some(Ok(Val::Bytes(stored[2..].to_vec())))
            } else {
                bad()
            }
        }
        Kind::Ipv6Prefix => {
            if (2..=18).contains(&n) {
                Some(Ok(Val::Bytes(stored[2..].to_vec())))
            } else {
                bad()
            }
        }
        Kind::Date | Kind::Integer => match <[u8; 4]>::try_from(stored) {
            Ok(a) => {
                let v = (a[0] as u32) << 24 | (a[1] as u32) << 16 | (a[2] as u32) << 8 | a[3] as u32;
                Some(Ok(if kind == Kind::Date {
                    Val::Date(v as i64)
                } else {
                    Val::U32(v)
                }))
            }
            Err(_) => bad(),
        },
        Kind::Short => {
            if n == 2 {
                Some(Ok(Val::U16((stored[0] as u16) << 8 | stored[1] as u16)))
            } else {
                bad()
            }
        }
        Kind::TInteger => {
            if n != 5 || stored[0] > 0x1f {
                bad()
            } else {
                let v = stored[1..].iter().fold(0u32, |a, b| a << 8 | *b as u32);
                Some(Ok(Val::TU32(stored[0], v)))
            }
        }
        Kind::Concat | Kind::Vsa => None,
    }
}

/// The octets a value has to be stored as; Err: must be refused.
/// Not for Tunnel-Password (random salt) and continued attributes.
pub fn write(kind: Kind, v: &Val, secret: &[u8], auth: &[u8]) -> Res<Vec<u8>> {
    let no = || Err(String::new());
    match (kind, v) {
        (Kind::String, Val::Str(s)) => Ok(s.as_bytes().to_vec()),
        (Kind::Octets, Val::Bytes(b)) => Ok(b.clone()),
        (Kind::Fixed(n), Val::Bytes(b)) => {
            if b.len() == n {
                Ok(b.clone())
            } else {
                no()
            }
        }
        (Kind::UserPw, Val::Bytes(b)) => {
            if b.len() > 128 || secret.is_empty() || auth.len() != 16 {
                no()
            } else {
                Ok(model::hide(&model::pad16(b), secret, auth))
            }
        }
        (Kind::TString, Val::TStr(t, s)) => {
            let mut o: Vec<u8> = t.iter().copied().collect();
            o.extend(s.as_bytes());
            Ok(o)
        }
        (Kind::Ipv4, Val::V4(a)) => Ok(a.to_vec()),
        (Kind::Ipv6, Val::V6(a)) => Ok(a.to_vec()),
        (Kind::Ipv4Prefix, Val::Bytes(b)) => {
            if b.len() == 4 {
                Ok([&[0, 32], &b[..]].concat())
            } else {
                no()
            }
        }
        (Kind::Ipv6Prefix, Val::Bytes(b)) => {
            if b.len() <= 16 {
                Ok([&[0, b.len() as u8 * 8], &b[..]].concat())
            } else {
                no()
            }
        }
        (Kind::Date, Val::Date(s)) => Ok(vec![
            (s >> 24) as u8,
            (s >> 16) as u8,
            (s >> 8) as u8,
            *s as u8,
        ]),
        (Kind::Integer, Val::U32(x)) => Ok(vec![
            (x >> 24) as u8,
            (x >> 16) as u8,
            (x >> 8) as u8,
            *x as u8,
        ]),
        (Kind::TInteger, Val::TU32(t, x)) => Ok(vec![
            *t,
            (x >> 24) as u8,
            (x >> 16) as u8,
            (x >> 8) as u8,
            *x as u8,
        ]),
        (Kind::Short, Val::U16(x)) => Ok(vec![(x >> 8) as u8, *x as u8]),
        _ => panic!("harness: wrong value kind"),
    }
}

/// Values of a kind used wherever all attributes are combined with values.
pub fn samples(kind: Kind) -> Vec<Val> {
    let strs: Vec<String> = vec![
        "".into(),
        "a".into(),
        "user@example.com".into(),
        "héllo wörld \u{1F600}".into(),
        "nul\0inside".into(),
        "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}".into(),
        "z".repeat(252),
        "y".repeat(253),
    ];
    let bytes: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xff, 0, 0x80, 1],
        (0..=15).collect(),
        (0..=252).collect(),
        vec![0xc3, 0x28],
    ];
    let u32s = [0u32, 1, 2, 0xff, 0x100, 0x1234, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff];
    match kind {
        Kind::String => strs.into_iter().map(Val::Str).collect(),
        Kind::TString => {
            let mut v = vec![];
            for s in strs.iter().filter(|s| s.len() < 253) {
                for t in [1u8, 2, 0x1e, 0x1f] {
                    v.push(Val::TStr(Some(t), s.clone()));
                }
                if s.as_bytes().first().map_or(false, |b| *b > 0x1f) {
                    v.push(Val::TStr(None, s.clone()));
                }
            }
            v
        }
        Kind::Octets | Kind::Concat => bytes.into_iter().map(Val::Bytes).collect(),
        Kind::Fixed(n) => vec![
            Val::Bytes(vec![0; n]),
            Val::Bytes((1..=n as u8).collect()),
            Val::Bytes((0..n).map(|i| 0xff - i as u8).collect()),
        ],
        Kind::UserPw => [0usize, 1, 10, 15, 16, 17, 31, 32, 33, 127, 128]
            .iter()
            .map(|n| Val::Bytes((0..*n).map(|i| 0x21 + (i % 90) as u8).collect()))
            .collect(),
        Kind::TunnelPw => [0usize, 1, 15, 16, 17, 100, 239, 240]
            .iter()
            .flat_map(|n| {
                [0u8, 1, 0x1f]
                    .iter()
                    .map(move |t| Val::TBytes(*t, (0..*n).map(|i| 0x21 + (i % 90) as u8).collect()))
            })
            .collect(),
        Kind::Ipv4 => vec![
            Val::V4([0; 4]),
            Val::V4([255; 4]),
            Val::V4([192, 0, 2, 1]),
            Val::V4([1, 2, 3, 4]),
        ],
        Kind::Ipv6 => vec![
            Val::V6([0; 16]),
            Val::V6([255; 16]),
            Val::V6([0x20, 1, 0xd, 0xb8, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        ],
        Kind::Ipv4Prefix => vec![
            Val::Bytes(vec![0; 4]),
            Val::Bytes(vec![10, 20, 30, 40]),
            Val::Bytes(vec![255; 4]),
        ],
        Kind::Ipv6Prefix => (0..=16usize)
            .map(|n| Val::Bytes((0..n).map(|i| 0x20 + i as u8).collect()))
            .collect(),
        Kind::Date => u32s.iter().map(|x| Val::Date(*x as i64)).collect(),
        Kind::Integer => u32s.iter().map(|x| Val::U32(*x)).collect(),
        Kind::TInteger => u32s
            .iter()
            .flat_map(|x| [0u8, 1, 0x10, 0x1f].iter().map(move |t| Val::TU32(*t, *x)))
            .collect(),
        Kind::Short => [0u16, 1, 0xff, 0x100, 0x1234, 0x8000, 0xffff]
            .iter()
            .map(|x| Val::U16(*x))
            .collect(),
        Kind::Vsa => vec![],
    }
}

/// More values of a kind, for the texts, octets and numbers that code may treat specially.
pub fn odd(kind: Kind) -> Vec<Val> {
    let mut bytes: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for b in [0u8, 9, 10, 13, 32, 34, 39, 92, 0x7f, 0x80, 0xff] {
        bytes.push(vec![b'a', b]);
        bytes.push(vec![b, b'a']);
        bytes.push(vec![b'a', b, b'a']);
        bytes.push(vec![b; 3]);
        bytes.push(vec![b; 16]);
        bytes.push([vec![b'p'; 15], vec![b]].concat());
        bytes.push([vec![b'p'; 16], vec![b]].concat());
        bytes.push([vec![b], vec![b'p'; 16]].concat());
    }
    for n in 0..=253usize {
        bytes.push((0..n).map(|i| b'!' + (i * 7 % 90) as u8).collect());
    }
    let mut texts: Vec<String> = bytes.iter().filter_map(|b| String::from_utf8(b.clone()).ok()).collect();
    for t in ["\u{feff}bom", "e\u{301}", "\u{e9}", "\u{130}", "\u{df}", "UPPER lower", "a\u{a0}", "\u{2028}", "{}", "%s", "\u{10ffff}", "\u{fffd}", "*redacted*"] {
        texts.push(t.into());
    }
    let u32s: Vec<u32> = (0..32).flat_map(|b| [1u32 << b, (1u32 << b) - 1, !(1u32 << b), (1u32 << b) | 1]).chain((0..4).map(|k| 0x8182_8384u32.rotate_left(8 * k))).collect();
    match kind {
        Kind::String => texts.into_iter().map(Val::Str).collect(),
        Kind::TString => texts
            .iter()
            .filter(|s| s.len() < 253)
            .flat_map(|s| {
                let mut v = vec![Val::TStr(Some(s.len() as u8 % 31 + 1), s.clone())];
                if s.as_bytes().first().map_or(false, |b| *b > 0x1f) {
                    v.push(Val::TStr(None, s.clone()));
                }
                v
            })
            .collect(),
        Kind::Octets | Kind::Concat => bytes.into_iter().map(Val::Bytes).collect(),
        Kind::Fixed(n) => (0..n)
            .flat_map(|i| [0u8, 1, 0x80, 0xff].map(|b| Val::Bytes((0..n).map(|j| if i == j { b } else { 0x5a }).collect())))
            .collect(),
        // a password cannot end with a NUL
        Kind::UserPw => bytes.into_iter().filter(|b| b.len() <= 128 && b.last() != Some(&0)).map(Val::Bytes).collect(),
        Kind::TunnelPw => bytes.into_iter().filter(|b| b.len() <= 240 && b.last() != Some(&0)).map(|b| Val::TBytes(b.len() as u8 % 32, b)).collect(),
        Kind::Ipv4 => u32s.iter().map(|x| Val::V4(x.to_be_bytes())).collect(),
        Kind::Ipv4Prefix => u32s.iter().map(|x| Val::Bytes(x.to_be_bytes().to_vec())).collect(),
        Kind::Ipv6 => (0..128)
            .map(|b| Val::V6((1u128 << b).to_be_bytes()))
            .chain((0..16).map(|k| {
                let mut a = [0; 16];
                a[10] = 0xff;
                a[11] = 0xff;
                a[k] ^= 0x0f;
                Val::V6(a)
            }))
            .collect(),
        Kind::Ipv6Prefix => (0..=16usize).flat_map(|n| [0u8, 0xff, 0x80].map(|b| Val::Bytes(vec![b; n]))).collect(),
        Kind::Date => u32s.iter().map(|x| Val::Date(*x as i64)).collect(),
        Kind::Integer => u32s.iter().map(|x| Val::U32(*x)).collect(),
        Kind::TInteger => u32s.iter().enumerate().map(|(i, x)| Val::TU32(i as u8 % 32, *x)).collect(),
        Kind::Short => (0..16).flat_map(|b| [Val::U16(1 << b), Val::U16(!(1 << b)), Val::U16((1u16 << b).wrapping_sub(1))]).collect(),
        Kind::Vsa => vec![],
    }
}

/// stored octets, good and bad, for any kind
pub fn raws() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for n in (0usize..=21).chain([31, 32, 35, 48, 51, 127, 128, 129, 131, 144, 242, 243, 244, 253]) {
        v.push((0..n).map(|i| 0x41 + (i % 26) as u8).collect());
        v.push(vec![0; n]);
        v.push(vec![0xff; n]);
        v.push((0..n).map(|i| if i == 1 { 0x80 } else { (i * 7 + 1) as u8 & 0x7f }).collect());
    }
    for s in [
        &[0x1f, 0x61][..],
        &[0x20, 0x61],
        &[0x01],
        &[0x00, 0x61],
        &[0x1f, 0, 0, 1, 2],
        &[0x20, 0, 0, 1, 2],
        &[0, 0, 0, 0, 5],
        &[0xc3, 0xa9],
        &[0xc3],
        &[0x05, 0xc3],
        &[0x05, 0xc3, 0xa9],
        &[0xed, 0xa0, 0x80],
        &[0xf0, 0x9f, 0x98, 0x80],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xe0, 0x80, 0x80],
    ] {
        v.push(s.to_vec());
    }
    v
}
