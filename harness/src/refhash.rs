//! Reference MD5 (RFC 1321), SHA-1 (FIPS 180-4), BLAKE2b/BLAKE2s (RFC 7693), HMAC (RFC 2104), HKDF (RFC 5869),
//! written from the specifications, independent of the library under test.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Alg {
    Md5,
    Sha1,
    B2b { out: usize, key: Vec<u8> },
    B2s { out: usize, key: Vec<u8> },
}

impl Alg {
    pub fn block(&self) -> usize {
        match self {
            Alg::B2b { .. } => 128,
            _ => 64,
        }
    }
    pub fn out(&self) -> usize {
        match self {
            Alg::Md5 => 16,
            Alg::Sha1 => 20,
            Alg::B2b { out, .. } | Alg::B2s { out, .. } => *out,
        }
    }
}

pub struct Stream {
    alg: Alg,
    w32: [u32; 8],
    w64: [u64; 8],
    buf: Vec<u8>,
    total: u128,
}

const IV32: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const IV64: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1,
    0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIG: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn md5_k() -> &'static [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let mut k = [0; 64];
        for (i, v) in k.iter_mut().enumerate() {
            *v = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
        }
        k
    })
}

fn md5_block(h: &mut [u32; 8], b: &[u8]) {
    let k = md5_k();
    const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    let (mut a, mut bb, mut c, mut d) = (h[0], h[1], h[2], h[3]);
    for i in 0..64 {
        let (f, g) = match i / 16 {
            0 => ((bb & c) | (!bb & d), i),
            1 => ((d & bb) | (!d & c), (5 * i + 1) % 16),
            2 => (bb ^ c ^ d, (3 * i + 5) % 16),
            _ => (c ^ (bb | !d), (7 * i) % 16),
        };
        let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(m[g]);
        a = d;
        d = c;
        c = bb;
        bb = bb.wrapping_add(t.rotate_left(S[i / 16][i % 4]));
    }
    h[0] = h[0].wrapping_add(a);
    h[1] = h[1].wrapping_add(bb);
    h[2] = h[2].wrapping_add(c);
    h[3] = h[3].wrapping_add(d);
}

fn sha1_block(h: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    for t in 16..80 {
        w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
    }
    let (mut a, mut bb, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for t in 0..80 {
        let (f, k) = match t / 20 {
            0 => ((bb & c) ^ (!bb & d), 0x5a827999u32),
            1 => (bb ^ c ^ d, 0x6ed9eba1),
            2 => ((bb & c) ^ (bb & d) ^ (c & d), 0x8f1bbcdc),
            _ => (bb ^ c ^ d, 0xca62c1d6),
        };
        let tmp = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
        e = d;
        d = c;
        c = bb.rotate_left(30);
        bb = a;
        a = tmp;
    }
    for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) {
        *x = x.wrapping_add(y);
    }
}

fn b2s_block(h: &mut [u32; 8], b: &[u8], t: u128, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV32);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(12);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(8);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(7);
    };
    for r in 0..10 {
        let s = &SIG[r];
        let x = |i: usize| m[s[i] as usize];
        g(0, 4, 8, 12, x(0), x(1));
        g(1, 5, 9, 13, x(2), x(3));
        g(2, 6, 10, 14, x(4), x(5));
        g(3, 7, 11, 15, x(6), x(7));
        g(0, 5, 10, 15, x(8), x(9));
        g(1, 6, 11, 12, x(10), x(11));
        g(2, 7, 8, 13, x(12), x(13));
        g(3, 4, 9, 14, x(14), x(15));
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

fn b2b_block(h: &mut [u64; 8], b: &[u8], t: u128, last: bool) {
    let mut m = [0u64; 16];
    for i in 0..16 {
        let mut a = [0u8; 8];
        a.copy_from_slice(&b[8 * i..8 * i + 8]);
        m[i] = u64::from_le_bytes(a);
    }
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV64);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    };
    for r in 0..12 {
        let s = &SIG[r % 10];
        let x = |i: usize| m[s[i] as usize];
        g(0, 4, 8, 12, x(0), x(1));
        g(1, 5, 9, 13, x(2), x(3));
        g(2, 6, 10, 14, x(4), x(5));
        g(3, 7, 11, 15, x(6), x(7));
        g(0, 5, 10, 15, x(8), x(9));
        g(1, 6, 11, 12, x(10), x(11));
        g(2, 7, 8, 13, x(12), x(13));
        g(3, 4, 9, 14, x(14), x(15));
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

impl Stream {
    pub fn new(alg: &Alg) -> Self {
        let mut s = Stream { alg: alg.clone(), w32: [0; 8], w64: [0; 8], buf: vec![], total: 0 };
        match alg {
            Alg::Md5 => s.w32[..4].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]),
            Alg::Sha1 => {
                s.w32[..5].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0])
            }
            Alg::B2s { out, key } => {
                s.w32 = IV32;
                s.w32[0] ^= 0x01010000 ^ ((key.len() as u32) << 8) ^ *out as u32;
                s.key_block(key, 64);
            }
            Alg::B2b { out, key } => {
                s.w64 = IV64;
                s.w64[0] ^= 0x01010000 ^ ((key.len() as u64) << 8) ^ *out as u64;
                s.key_block(key, 128);
            }
        }
        s
    }
    fn key_block(&mut self, key: &[u8], n: usize) {
        if !key.is_empty() {
            self.buf = key.to_vec();
            self.buf.resize(n, 0);
        }
    }
    fn block(&mut self, b: &[u8], last: bool) {
        match self.alg {
            Alg::Md5 => md5_block(&mut self.w32, b),
            Alg::Sha1 => sha1_block(&mut self.w32, b),
            Alg::B2s { .. } => b2s_block(&mut self.w32, b, self.total, last),
            Alg::B2b { .. } => b2b_block(&mut self.w64, b, self.total, last),
        }
    }
    pub fn update(&mut self, data: &[u8]) {
        let n = self.alg.block();
        // a full buffer is only processed once more data is known to follow (needed by BLAKE2, harmless for the rest)
        let mut rest = data;
        while self.buf.len() + rest.len() > n {
            let take = n - self.buf.len();
            let mut b = std::mem::take(&mut self.buf);
            b.extend_from_slice(&rest[..take]);
            rest = &rest[take..];
            self.total += n as u128;
            self.block(&b, false);
            b.clear();
            self.buf = b;
        }
        self.buf.extend_from_slice(rest);
    }
    pub fn finish(mut self) -> Vec<u8> {
        let n = self.alg.block();
        let mut b = std::mem::take(&mut self.buf);
        self.total += b.len() as u128;
        match self.alg.clone() {
            Alg::Md5 | Alg::Sha1 => {
                b.push(0x80);
                while b.len() % 64 != 56 {
                    b.push(0);
                }
                let bits = (self.total * 8) as u64;
                if self.alg == Alg::Md5 {
                    b.extend_from_slice(&bits.to_le_bytes());
                } else {
                    b.extend_from_slice(&bits.to_be_bytes());
                }
                for c in b.chunks(64) {
                    self.block(c, false);
                }
                if self.alg == Alg::Md5 {
                    self.w32[..4].iter().flat_map(|w| w.to_le_bytes()).collect()
                } else {
                    self.w32[..5].iter().flat_map(|w| w.to_be_bytes()).collect()
                }
            }
            Alg::B2s { out, .. } => {
                b.resize(n, 0);
                self.block(&b, true);
                self.w32.iter().flat_map(|w| w.to_le_bytes()).take(out).collect()
            }
            Alg::B2b { out, .. } => {
                b.resize(n, 0);
                self.block(&b, true);
                self.w64.iter().flat_map(|w| w.to_le_bytes()).take(out).collect()
            }
        }
    }
}

pub fn digest(alg: &Alg, msg: &[u8]) -> Vec<u8> {
    let mut s = Stream::new(alg);
    s.update(msg);
    s.finish()
}

pub fn hmac(alg: &Alg, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let n = alg.block();
    let mut k = if key.len() > n { digest(alg, key) } else { key.to_vec() };
    k.resize(n, 0);
    let mut i = Stream::new(alg);
    i.update(&k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
    i.update(msg);
    let inner = i.finish();
    let mut o = Stream::new(alg);
    o.update(&k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
    o.update(&inner);
    o.finish()
}

pub fn hkdf(alg: &Alg, salt: &[u8], ikm: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let prk = hmac(alg, salt, ikm);
    let mut okm = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 0u32;
    while okm.len() < len {
        i += 1;
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(alg, &prk, &m);
        okm.extend_from_slice(&t);
    }
    okm.truncate(len);
    okm
}
