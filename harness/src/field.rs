//! Field selection, element descriptions, plain-integer oracle arithmetic and a deterministic generator.

use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{One, Zero};
use num_bigint::BigUint;
use proptest::prelude::*;
use rand::{CryptoRng, Error, RngCore};
use serde::{Deserialize, Serialize};
use std::str::FromStr;

use crate::Sm;

// Fields a user of the library might declare: tiny primes, word-size boundaries, other radices.
prime_fields!(
    pub User2("2", 10),
    pub User5("101", 2),
    pub User11("b", 16),
    pub User257("257", 10),
    pub User65537("1ekh", 36),
    pub User2p64m59("FFFFFFFFFFFFFFC5", 16),
    pub User2p64p13("18446744073709551629", 10),
    pub UserSecp("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16),
    pub User17("025", 6)
);

pub const PREDEFINED: usize = 14;
pub const FIELDS: usize = 23;
pub const FIRST_LARGE: usize = 11;

/// Bind `$F` to the concrete type of field number `$id`.
#[macro_export]
macro_rules! with_field {
    ($id:expr, |$F:ident| $body:expr) => {{
        use jester_maths::prime::*;
        use $crate::field as jvf;
        match $id {
            0 => { type $F = Mersenne2; $body }
            1 => { type $F = Mersenne3; $body }
            2 => { type $F = Mersenne5; $body }
            3 => { type $F = Mersenne13; $body }
            4 => { type $F = Mersenne17; $body }
            5 => { type $F = Mersenne19; $body }
            6 => { type $F = Mersenne31; $body }
            7 => { type $F = Mersenne61; $body }
            8 => { type $F = Mersenne89; $body }
            9 => { type $F = Mersenne107; $body }
            10 => { type $F = Mersenne127; $body }
            11 => { type $F = IetfGroup1; $body }
            12 => { type $F = IetfGroup2; $body }
            13 => { type $F = IetfGroup3; $body }
            14 => { type $F = jvf::User2; $body }
            15 => { type $F = jvf::User5; $body }
            16 => { type $F = jvf::User11; $body }
            17 => { type $F = jvf::User257; $body }
            18 => { type $F = jvf::User65537; $body }
            19 => { type $F = jvf::User2p64m59; $body }
            20 => { type $F = jvf::User2p64p13; $body }
            21 => { type $F = jvf::UserSecp; $body }
            22 => { type $F = jvf::User17; $body }
            other => return Err(format!("no field {}", other)),
        }
    }};
}

pub fn hexint(s: &str) -> BigUint {
    // own conversion, not the library's
    let mut n = BigUint::zero();
    for c in s.chars().filter(|c| !c.is_whitespace()) {
        n = n * 16u32 + c.to_digit(16).unwrap();
    }
    n
}

fn pow2m(k: usize, c: u64) -> BigUint {
    (BigUint::one() << k) - BigUint::from(c)
}

/// The prime each field is meant to have, written down independently of the library.
pub fn prime(id: usize) -> BigUint {
    static P: std::sync::OnceLock<Vec<BigUint>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<BigUint> =
            [2, 3, 5, 13, 17, 19, 31, 61, 89, 107, 127].iter().map(|k| pow2m(*k, 1)).collect();
        // RFC 5114 sections 2.1 to 2.3
        v.push(hexint("
            B10B8F96 A080E01D DE92DE5E AE5D54EC 52C99FBC FB06A3C6
            9A6A9DCA 52D23B61 6073E286 75A23D18 9838EF1E 2EE652C0
            13ECB4AE A9061123 24975C3C D49B83BF ACCBDD7D 90C4BD70
            98488E9C 219A7372 4EFFD6FA E5644738 FAA31A4F F55BCCC0
            A151AF5F 0DC8B4BD 45BF37DF 365C1A65 E68CFDA7 6D4DA708
            DF1FB2BC 2E4A4371"));
        v.push(hexint("
            AD107E1E 9123A9D0 D660FAA7 9559C51F A20D64E5 683B9FD1
            B54B1597 B61D0A75 E6FA141D F95A56DB AF9A3C40 7BA1DF15
            EB3D688A 309C180E 1DE6B85A 1274A0A6 6D3F8152 AD6AC212
            9037C9ED EFDA4DF8 D91E8FEF 55B7394B 7AD5B7D0 B6C12207
            C9F98D11 ED34DBF6 C6BA0B2C 8BBC27BE 6A00E0A0 B9C49708
            B3BF8A31 70918836 81286130 BC8985DB 1602E714 415D9330
            278273C7 DE31EFDC 7310F712 1FD5A074 15987D9A DC0A486D
            CDF93ACC 44328387 315D75E1 98C641A4 80CD86A1 B9E587E8
            BE60E69C C928B2B9 C52172E4 13042E9B 23F10B0E 16E79763
            C9B53DCF 4BA80A29 E3FB73C1 6B8E75B9 7EF363E2 FFA31F71
            CF9DE538 4E71B81C 0AC4DFFE 0C10E64F"));
        v.push(hexint("
            87A8E61D B4B6663C FFBBD19C 65195999 8CEEF608 660DD0F2
            5D2CEED4 435E3B00 E00DF8F1 D61957D4 FAF7DF45 61B2AA30
            16C3D911 34096FAA 3BF4296D 830E9A7C 209E0C64 97517ABD
            5A8A9D30 6BCF67ED 91F9E672 5B4758C0 22E0B1EF 4275BF7B
            6C5BFC11 D45F9088 B941F54E B1E59BB8 BC39A0BF 12307F5C
            4FDB70C5 81B23F76 B63ACAE1 CAA6B790 2D525267 35488A0E
            F13C6D9A 51BFA4AB 3AD83477 96524D8E F6A167B5 A41825D9
            67E144E5 14056425 1CCACB83 E6B486F6 B3CA3F79 71506026
            C0B857F6 89962856 DED4010A BD0BE621 C3A3960A 54E710C3
            75F26375 D7014103 A4B54330 C198AF12 6116D227 6E11715F
            693877FA D7EF09CA DB094AE9 1E1A1597"));
        v.extend([2u64, 5, 11, 257, 65537].iter().map(|p| BigUint::from(*p)));
        v.push(pow2m(64, 59));
        v.push((BigUint::one() << 64) + 13u32);
        v.push(pow2m(256, (1 << 32) + 977));
        v.push(BigUint::from(17u32));
        v
    })[id]
        .clone()
}

/// Description of an integer below some bound; small values of the fields are the simple ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum El {
    Small(u64),
    /// bound - 1 - x
    Top(u64),
    /// 2^k + d
    Pow2(u16, i8),
    /// bound * x / 2^32 + d
    Frac(u32, i8),
    /// uniformly distributed
    Rand(u64),
    /// relative to an earlier element
    Rel(u8, Rel),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Rel {
    Same,
    Neg,
    NegPlus(i8),
    Plus(i8),
    Inv,
    Double,
    Square,
}

fn offset(n: BigUint, d: i64, bound: &BigUint) -> BigUint {
    if d >= 0 {
        (n + BigUint::from(d as u64)) % bound
    } else {
        let d = BigUint::from((-d) as u64) % bound;
        ((n % bound) + bound - d) % bound
    }
}

pub fn modpow_ref(b: &BigUint, e: &BigUint, m: &BigUint) -> BigUint {
    let mut r = BigUint::one() % m;
    let b = b % m;
    for byte in e.to_bytes_be() {
        for i in (0..8).rev() {
            r = &r * &r % m;
            if byte >> i & 1 == 1 {
                r = &r * &b % m;
            }
        }
    }
    r
}

/// Inverse modulo a prime by the iterative extended Euclidean algorithm on signed integers.
pub fn inv_ref(a: &BigUint, p: &BigUint) -> BigUint {
    use num_bigint::BigInt;
    let (mut r0, mut r1) = (BigInt::from(p.clone()), BigInt::from(a % p));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, r);
        let t = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, t);
    }
    let p = BigInt::from(p.clone());
    let t = ((t0 % &p) + &p) % &p;
    t.to_biguint().unwrap()
}

pub fn gcd_ref(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_zero() {
        let r = &a % &b;
        a = std::mem::replace(&mut b, r);
    }
    a
}

impl El {
    pub fn value(&self, p: &BigUint, before: &[BigUint]) -> BigUint {
        match self {
            El::Small(x) => BigUint::from(*x) % p,
            El::Top(x) => (p - 1u32) - (BigUint::from(*x) % p),
            El::Pow2(k, d) => {
                let bits = p.bits().max(1);
                offset(BigUint::one() << (*k as usize % bits), *d as i64, p)
            }
            El::Frac(x, d) => offset((p * BigUint::from(*x)) >> 32, *d as i64, p),
            El::Rand(s) => {
                let n = p.bits() / 8 + 9;
                BigUint::from_bytes_le(&Sm(*s).bytes(n)) % p
            }
            El::Rel(i, r) => {
                if before.is_empty() {
                    return BigUint::zero();
                }
                let a = before[*i as usize % before.len()].clone() % p;
                match r {
                    Rel::Same => a,
                    Rel::Neg => (p - a) % p,
                    Rel::NegPlus(d) => offset((p - a) % p, *d as i64, p),
                    Rel::Plus(d) => offset(a, *d as i64, p),
                    Rel::Inv => {
                        if a.is_zero() {
                            a
                        } else {
                            inv_ref(&a, p)
                        }
                    }
                    Rel::Double => (&a + &a) % p,
                    Rel::Square => &a * &a % p,
                }
            }
        }
    }
}

pub fn values(els: &[El], p: &BigUint) -> Vec<BigUint> {
    let mut v = vec![];
    for e in els {
        let x = e.value(p, &v);
        v.push(x);
    }
    v
}

pub fn el() -> BoxedStrategy<El> {
    prop_oneof![
        3 => (0u64..6).prop_map(El::Small),
        1 => any::<u64>().prop_map(El::Small),
        2 => (0u64..6).prop_map(El::Top),
        2 => (0u16..2100, -2i8..3).prop_map(|(k, d)| El::Pow2(k, d)),
        2 => (any::<u32>(), -2i8..3).prop_map(|(k, d)| El::Frac(k, d)),
        1 => prop_oneof![Just(1u32 << 31), Just(1u32 << 30), Just(u32::MAX), Just(3u32 << 30), Just(1431655766u32)]
            .prop_flat_map(|x| (Just(x), -3i8..4)).prop_map(|(k, d)| El::Frac(k, d)),
        5 => any::<u64>().prop_map(El::Rand),
    ]
    .boxed()
}

/// An element possibly related to an earlier one.
pub fn rel_el() -> BoxedStrategy<El> {
    let r = prop_oneof![
        2 => Just(Rel::Same),
        2 => Just(Rel::Neg),
        2 => (-2i8..3).prop_map(Rel::NegPlus),
        2 => (-2i8..3).prop_map(Rel::Plus),
        1 => Just(Rel::Inv),
        1 => Just(Rel::Double),
        1 => Just(Rel::Square),
    ];
    prop_oneof![3 => el(), 1 => (any::<u8>(), r).prop_map(|(i, r)| El::Rel(i % 16, r))].boxed()
}

/// All fields, small ones as often as large ones.
pub fn field_id() -> BoxedStrategy<usize> {
    prop_oneof![8 => 0usize..FIRST_LARGE, 2 => FIRST_LARGE..PREDEFINED, 4 => PREDEFINED..FIELDS].boxed()
}

/// Deterministic generator implementing the interfaces of rand 0.5.
#[derive(Clone, Debug)]
pub struct DetRng(pub Sm);

impl DetRng {
    pub fn new(seed: u64) -> Self {
        DetRng(Sm(crate::mix(seed)))
    }
}

impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        (self.0.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let b = self.0.bytes(dest.len());
        dest.copy_from_slice(&b);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for DetRng {}

pub fn dec(s: &str) -> BigUint {
    BigUint::from_str(s).unwrap()
}

fn small_primes() -> &'static [u32] {
    static P: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    P.get_or_init(|| (2u32..2000).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect())
}

/// Miller-Rabin with fixed and pseudo-random bases.
pub fn is_prime(n: &BigUint) -> bool {
    let two = BigUint::from(2u32);
    if *n < two {
        return false;
    }
    for q in small_primes() {
        if (n % *q).is_zero() {
            return *n == BigUint::from(*q);
        }
    }
    let one = BigUint::one();
    let nm = n - &one;
    let mut d = nm.clone();
    let mut r = 0;
    while (&d % 2u32).is_zero() {
        d >>= 1;
        r += 1;
    }
    let mut sm = Sm(7);
    let mut bases: Vec<BigUint> = [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().map(|b| BigUint::from(*b)).collect();
    bases.extend((0..8).map(|_| BigUint::from_bytes_le(&sm.bytes(n.bits() / 8 + 1)) % n));
    'w: for a in bases {
        if a <= one {
            continue;
        }
        let mut x = a.modpow(&d, n);
        if x == one || x == nm {
            continue;
        }
        for _ in 0..r - 1 {
            x = &x * &x % n;
            if x == nm {
                continue 'w;
            }
        }
        return false;
    }
    true
}

/// Some prime with (at least) this many bits, determined by `seed`.
pub fn prime_of(bits: usize, seed: u64) -> BigUint {
    let bits = bits.max(2);
    let low = BigUint::from_bytes_le(&Sm(seed).bytes(bits / 8 + 1)) % (BigUint::one() << (bits - 1));
    let mut n = (BigUint::one() << (bits - 1)) + low;
    while !is_prime(&n) {
        n += 1u32;
    }
    n
}
