//! Reference model, written from the RFCs, independent of the library.

pub fn md5(parts: &[&[u8]]) -> [u8; 16] {
    const S: [u32; 64] = [
        7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5,
        9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10,
        15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
    ];
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| {
        let mut k = [0u32; 64];
        for (i, x) in k.iter_mut().enumerate() {
            *x = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        }
        k
    });
    let mut msg: Vec<u8> = parts.concat();
    let bits = (msg.len() as u64).wrapping_mul(8);
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend(bits.to_le_bytes());
    let (mut a0, mut b0, mut c0, mut d0) =
        (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    for blk in msg.chunks(64) {
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = d;
            d = c;
            c = b;
            b = b.wrapping_add(
                a.wrapping_add(f)
                    .wrapping_add(k[i])
                    .wrapping_add(m[g])
                    .rotate_left(S[i]),
            );
            a = t;
        }
        a0 = a0.wrapping_add(a);
        b0 = b0.wrapping_add(b);
        c0 = c0.wrapping_add(c);
        d0 = d0.wrapping_add(d);
    }
    let mut out = [0u8; 16];
    for (i, w) in [a0, b0, c0, d0].iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
    }
    out
}

pub type Attr = (u8, Vec<u8>);

#[derive(Clone, Debug, PartialEq)]
pub struct MPacket {
    pub code: u8,
    pub id: u8,
    pub auth: [u8; 16],
    pub attrs: Vec<Attr>,
}

/// RFC 2865 section 3 and 5.
pub fn parse(bs: &[u8]) -> Option<MPacket> {
    if bs.len() < 20 {
        return None;
    }
    let len = bs[2] as usize * 256 + bs[3] as usize;
    if len < 20 || len > 4096 || len > bs.len() {
        return None;
    }
    let mut attrs = vec![];
    let mut rest = &bs[20..len];
    while !rest.is_empty() {
        if rest.len() < 2 {
            return None;
        }
        let l = rest[1] as usize;
        if l < 2 || l > rest.len() {
            return None;
        }
        attrs.push((rest[0], rest[2..l].to_vec()));
        rest = &rest[l..];
    }
    let mut auth = [0; 16];
    auth.copy_from_slice(&bs[4..20]);
    Some(MPacket {
        code: bs[0],
        id: bs[1],
        auth,
        attrs,
    })
}

pub const SENDABLE: [u8; 13] = [1, 2, 3, 4, 5, 11, 12, 40, 41, 42, 43, 44, 45];
pub const REGISTERED: [u8; 15] = [1, 2, 3, 4, 5, 11, 12, 13, 40, 41, 42, 43, 44, 45, 255];
pub const ZERO_REQ: [u8; 3] = [4, 40, 43];
pub const OWN_AUTH: [u8; 2] = [1, 12];

/// The packet on the wire, or None if it must not be sent.
pub fn encode(p: &MPacket, secret: &[u8]) -> Option<Vec<u8>> {
    if !SENDABLE.contains(&p.code) {
        return None;
    }
    let total: usize = 20 + p.attrs.iter().map(|a| a.1.len() + 2).sum::<usize>();
    if total > 4096 || p.attrs.iter().any(|a| a.1.len() > 253) {
        return None;
    }
    let mut bs = vec![p.code, p.id, (total >> 8) as u8, total as u8];
    bs.extend(p.auth);
    for (t, v) in &p.attrs {
        bs.push(*t);
        bs.push(v.len() as u8 + 2);
        bs.extend(v);
    }
    if !OWN_AUTH.contains(&p.code) {
        let seed = if ZERO_REQ.contains(&p.code) {
            [0; 16]
        } else {
            p.auth
        };
        let d = md5(&[&bs[..4], &seed, &bs[20..], secret]);
        bs[4..20].copy_from_slice(&d);
    }
    Some(bs)
}

/// None: unspecified (a malformed length field)
pub fn authentic_request(bs: &[u8], secret: &[u8]) -> Option<bool> {
    if bs.len() < 20 || secret.is_empty() {
        return Some(false);
    }
    let len = bs[2] as usize * 256 + bs[3] as usize;
    if OWN_AUTH.contains(&bs[0]) {
        return if len < 20 || len > bs.len() { None } else { Some(true) };
    }
    if !ZERO_REQ.contains(&bs[0]) {
        return Some(false);
    }
    if len < 20 || len > bs.len() {
        return None;
    }
    Some(md5(&[&bs[..4], &[0; 16], &bs[20..len], secret])[..] == bs[4..20])
}

pub fn authentic_response(resp: &[u8], req: &[u8], secret: &[u8]) -> Option<bool> {
    if resp.len() < 20 || req.len() < 20 || secret.is_empty() {
        return Some(false);
    }
    let len = resp[2] as usize * 256 + resp[3] as usize;
    if len < 20 || len > resp.len() {
        return None;
    }
    Some(md5(&[&resp[..4], &req[4..20], &resp[20..len], secret])[..] == resp[4..20])
}

/// zero padding to a positive multiple of 16 octets
pub fn pad16(p: &[u8]) -> Vec<u8> {
    let n = p.len().div_ceil(16).max(1) * 16;
    let mut v = p.to_vec();
    v.resize(n, 0);
    v
}

/// hides padded plain text: b1 = MD5(S + seed), bi = MD5(S + c(i-1))
pub fn hide(padded: &[u8], secret: &[u8], seed: &[u8]) -> Vec<u8> {
    let mut prev = seed.to_vec();
    let mut out = vec![];
    for c in padded.chunks(16) {
        let b = md5(&[secret, &prev]);
        prev = c.iter().zip(b).map(|(x, y)| x ^ y).collect();
        out.extend(&prev);
    }
    out
}

pub fn reveal(stored: &[u8], secret: &[u8], seed: &[u8]) -> Vec<u8> {
    let mut prev = seed.to_vec();
    let mut out = vec![];
    for c in stored.chunks(16) {
        let b = md5(&[secret, &prev]);
        out.extend(c.iter().zip(b).map(|(x, y)| x ^ y));
        prev = c.to_vec();
    }
    out
}

pub fn rtrim0(v: &[u8]) -> &[u8] {
    let mut n = v.len();
    while n > 0 && v[n - 1] == 0 {
        n -= 1;
    }
    &v[..n]
}

#[cfg(test)]
mod t {
    #[test]
    fn md5_rfc1321() {
        let h = |s: &str| super::md5(&[s.as_bytes()]).iter().map(|b| format!("{b:02x}")).collect::<String>();
        assert_eq!(h(""), "d41d8cd98f00b204e9800998ecf8427e");
        assert_eq!(h("abc"), "900150983cd24fb0d6963f7d28e17f72");
        assert_eq!(h("12345678901234567890123456789012345678901234567890123456789012345678901234567890"), "57edf4a22be3c955ac49da2e2107b67a");
    }
}
