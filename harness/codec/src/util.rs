use crate::engine::*;
use crate::model::{self, MPacket};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;

pub fn code(n: u8) -> Code {
    // independent of Code::from
    match n {
        1 => Code::AccessRequest,
        2 => Code::AccessAccept,
        3 => Code::AccessReject,
        4 => Code::AccountingRequest,
        5 => Code::AccountingResponse,
        11 => Code::AccessChallenge,
        12 => Code::StatusServer,
        13 => Code::StatusClient,
        40 => Code::DisconnectRequest,
        41 => Code::DisconnectACK,
        42 => Code::DisconnectNAK,
        43 => Code::CoARequest,
        44 => Code::CoAACK,
        45 => Code::CoANAK,
        255 => Code::Reserved,
        _ => Code::Invalid,
    }
}

/// All attributes, from the outside. The order across types comes from encode() where
/// that succeeds, so callers compare the encoding as well.
pub fn by_type(p: &Packet) -> Vec<(u8, Vec<Vec<u8>>)> {
    let mut v = vec![];
    for t in 0..=255u8 {
        let xs = p.lookup_all(t);
        if !xs.is_empty() {
            v.push((t, xs.iter().map(|a| a.encode_bytes()).collect()));
        }
    }
    v
}

pub fn model_by_type(attrs: &[model::Attr]) -> Vec<(u8, Vec<Vec<u8>>)> {
    let mut m: std::collections::BTreeMap<u8, Vec<Vec<u8>>> = Default::default();
    for (t, v) in attrs {
        m.entry(*t).or_default().push(v.clone());
    }
    m.into_iter().collect()
}

pub fn hash_packet(m: &MPacket) -> H {
    let mut h = H::new().u(m.code as u64).u(m.id as u64).b(&m.auth);
    for (t, v) in &m.attrs {
        h = h.u(*t as u64).b(v);
    }
    h
}

/// A real packet with the model's content (authenticator included), built by decoding
/// an Access-Request image, so that the authenticator is under our control; then
/// turned into `code` through make_response_packet if it is another type.
pub fn build(m: &MPacket, secret: &[u8]) -> Packet {
    let mut img = vec![1, m.id, 0, 20];
    img.extend(m.auth);
    let base = Packet::decode(&img, secret).expect("an empty Access-Request decodes");
    let mut p = if m.code == 1 {
        base
    } else {
        base.make_response_packet(code(m.code))
    };
    for (t, v) in &m.attrs {
        p.add(AVP::from_bytes(*t, v));
    }
    p
}

/// Attribute octets as they would go on the wire (type, value) of the single attribute `avp`.
pub fn wire_of(avp: AVP) -> Result<(u8, Vec<u8>), String> {
    let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s", 1);
    p.add(avp);
    let bs = p.encode().map_err(|e| format!("{e:?}"))?;
    let m = model::parse(&bs).ok_or("encoded packet is malformed")?;
    if m.attrs.len() != 1 {
        return Err(format!("{} attributes instead of one", m.attrs.len()));
    }
    Ok(m.attrs[0].clone())
}

pub fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 33) as u8
        })
        .collect()
}

pub fn auth16(seed: u64) -> [u8; 16] {
    let mut a = [0; 16];
    a.copy_from_slice(&pattern(16, seed));
    a
}

/// Secrets with every octet value alone, repeated, and at the start, the middle and the end of longer ones
/// (white space, NULs, ends of strings, digits, letters of either case among them).
pub fn odd_secrets() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for b in 0..=255u8 {
        v.push(vec![b]);
        v.push(vec![b; 2]);
        v.push(vec![b; 16]);
        for k in [0usize, 2, 4] {
            let mut s = b"sEcr1".to_vec();
            s[k] = b;
            v.push(s);
        }
        for k in [0usize, 16] {
            let mut s = pattern(17, 3);
            s[k] = b;
            v.push(s);
        }
        v.push([b"name"[..].to_vec(), vec![b; 2]].concat());
    }
    v
}

/// Authenticators of one octet value, and with runs of zero octets.
pub fn odd_auths() -> Vec<[u8; 16]> {
    let mut v: Vec<[u8; 16]> = (0..=255u8).map(|b| [b; 16]).collect();
    for a in 0..16 {
        for b in a..16 {
            let mut x = auth16(11);
            x[a..=b].fill(0);
            v.push(x);
            let mut x = [0; 16];
            x[a..=b].fill(0x5a);
            v.push(x);
        }
    }
    v
}
