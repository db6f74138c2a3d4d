#![recursion_limit = "512"]
use jv::field::*;
use jv::{ensure, ensure_eq, stats, with_field, Info, Prop, Res, Sm, Tier};
use jester_maths::prime::PrimeField;
use num::{One, Zero};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn s(n: &BigUint) -> String {
    format!("{:x}", n)
}

/// `e` must be exactly the canonical element with value `want`.
fn canonical<F: PrimeField>(e: &F, want: &BigUint, what: &str) -> Result<(), String> {
    if &e.as_uint() != want {
        return Err(format!("{}: got 0x{:x}, expected 0x{:x}", what, e.as_uint(), want));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ M01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    field: usize,
    els: Vec<El>,
    /// operands of from(): value + k * p for each element (cycled)
    wraps: Vec<u16>,
    /// not zero: only the sum and the product of that many elements made from `els`
    #[serde(default)]
    long: usize,
}

fn args(min: usize, max: usize) -> BoxedStrategy<Args> {
    (field_id(), prop::collection::vec(rel_el(), min..=max), prop::collection::vec(0u16..4, 1..4))
        .prop_map(|(field, els, wraps)| Args { field, els, wraps, long: 0 })
        .boxed()
}

/// All pairs of elements of the small fields and all pairs of boundary elements of the others.
fn pairs(tier: Tier) -> Vec<Args> {
    let mut v = vec![];
    for field in 0..FIELDS {
        let p = prime(field);
        let mut xs: Vec<El> = vec![];
        if p.bits() <= 9 {
            let n = p.to_bytes_le().iter().rev().fold(0u64, |a, b| a * 256 + *b as u64);
            if n > 31 && tier == Tier::Quick {
                xs.extend((0..20).chain(118..138).map(El::Small));
                xs.extend((0..20).map(El::Top));
            } else {
                xs.extend((0..n).map(El::Small));
            }
        } else {
            let b = p.bits() as u16;
            xs.extend((0..4).map(El::Small));
            xs.extend((0..4).map(El::Top));
            for k in [7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, b / 2, b - 2, b - 1] {
                for d in -1..=1 {
                    xs.push(El::Pow2(k, d));
                }
            }
            for f in [1u32 << 31, 1 << 30, 3 << 30] {
                for d in -1..=1 {
                    xs.push(El::Frac(f, d));
                }
            }
        }
        for a in &xs {
            for b in &xs {
                v.push(Args { field, els: vec![a.clone(), b.clone()], wraps: vec![0], long: 0 });
            }
        }
        v.push(Args { field, els: vec![], wraps: vec![0], long: 0 });
    }
    v
}

fn build<F: PrimeField>(vals: &[BigUint], wraps: &[u16], p: &BigUint) -> Vec<F> {
    vals.iter()
        .enumerate()
        .map(|(i, v)| F::from(v + p * BigUint::from(wraps[i % wraps.len().max(1)])))
        .collect()
}

/// Sum and product of `n` elements.
fn check_long<F: PrimeField>(n: usize, of: &[BigUint], wraps: &[u16], p: &BigUint) -> Res {
    ensure!(!of.is_empty(), "no elements");
    let vals: Vec<BigUint> = (0..n).map(|i| (&of[i % of.len()] + BigUint::from(i / of.len())) % p).collect();
    let nonzero: Vec<BigUint> = vals.iter().map(|v| if v.is_zero() { p - 1u32 } else { v.clone() }).collect();
    let sum = vals.iter().fold(BigUint::zero(), |a, b| a + b) % p;
    let prod = nonzero.iter().fold(BigUint::one() % p, |a, b| a * b % p);
    canonical(&build::<F>(&vals, wraps, p).into_iter().sum::<F>(), &sum, &format!("sum of {} elements", n))?;
    canonical(&build::<F>(&nonzero, wraps, p).into_iter().product::<F>(), &prod, &format!("product of {} elements", n))?;
    Ok(Info::new(n > 2).label(true, "longer sequences").label(n > 1000, "more than a thousand elements"))
}

fn check_ring<F>(a: &Args, p: &BigUint) -> Res
where
    F: PrimeField + PartialOrd + Hash + Eq,
{
    let vals = values(&a.els, p);
    if a.long > 0 {
        return check_long::<F>(a.long, &vals, &a.wraps, p);
    }
    let els: Vec<F> = build(&vals, &a.wraps, p);
    let mut nontrivial = false;
    for (e, v) in els.iter().zip(&vals) {
        canonical(e, v, "element")?;
        ensure_eq!(e.is_zero(), v.is_zero(), "is_zero of {}", s(v));
        ensure_eq!(e.is_one(), v.is_one() && !p.is_one(), "is_one of {}", s(v));
    }
    canonical(&F::zero(), &BigUint::zero(), "zero()")?;
    canonical(&F::one(), &BigUint::one(), "one()")?;
    let (mut wrap, mut borrow) = (false, false);
    for (i, (x, vx)) in els.iter().zip(&vals).enumerate() {
        for (y, vy) in els.iter().zip(&vals).skip(if i > 3 { i } else { 0 }) {
            let what = |op: &str| format!("0x{:x} {} 0x{:x}", vx, op, vy);
            let sum = x.clone() + y.clone();
            canonical(&sum, &((vx + vy) % p), &what("+"))?;
            let diff = x.clone() - y.clone();
            canonical(&diff, &((vx + p - vy) % p), &what("-"))?;
            let prod = x.clone() * y.clone();
            canonical(&prod, &(vx * vy % p), &what("*"))?;
            // equality, hash and order agree with congruence
            ensure_eq!(x == y, vx == vy, "{}", what("=="));
            if vx == vy {
                ensure_eq!(hash_of(x), hash_of(y), "hashes of equal elements {}", s(vx));
            }
            ensure_eq!(x.partial_cmp(y), vx.partial_cmp(vy), "order of {}", what("and"));
            // results computed differently are the same element
            let back = sum.clone() - y.clone();
            ensure!(&back == x && hash_of(&back) == hash_of(x), "({}) - b differs from a", what("+"));
            ensure!(diff.clone() + y.clone() == *x, "({}) + b differs from a", what("-"));
            ensure!(sum == y.clone() + x.clone() && prod == y.clone() * x.clone(), "{} is not commutative", what("op"));
            ensure!(
                prod.clone() + x.clone() == x.clone() * (y.clone() + F::one()),
                "a*b + a differs from a*(b+1) for {}",
                what(",")
            );
            ensure!((F::zero() - diff.clone()) == y.clone() - x.clone(), "-(a-b) differs from b-a for {}", what(","));
            wrap |= vx + vy >= *p;
            borrow |= vx < vy;
            nontrivial |= !vx.is_zero() && !vy.is_zero();
        }
    }
    let mut sum = BigUint::zero();
    let mut prod = BigUint::one();
    for n in 0..=vals.len() {
        canonical(&els[..n].iter().cloned().sum::<F>(), &(&sum % p), &format!("sum of {} elements", n))?;
        canonical(&els[..n].iter().cloned().product::<F>(), &(&prod % p), &format!("product of {} elements", n))?;
        // the same elements from iterators that know less about their length, or nothing
        let split = n / 2;
        let mut left = els[..n].iter();
        let results = [
            els[..n].iter().cloned().filter(|_| true).sum::<F>(),
            els[..split].iter().chain(&els[split..n]).cloned().sum(),
            els[..n].chunks(2).flat_map(|c| c.to_vec()).sum(),
            std::iter::from_fn(|| left.next().cloned()).sum(),
        ];
        for r in &results {
            canonical(r, &(&sum % p), &format!("sum of {} elements from another kind of iterator", n))?;
        }
        let mut left = els[..n].iter();
        let results = [
            els[..n].iter().cloned().filter(|_| true).product::<F>(),
            els[..split].iter().chain(&els[split..n]).cloned().product(),
            els[..n].chunks(2).flat_map(|c| c.to_vec()).product(),
            std::iter::from_fn(|| left.next().cloned()).product(),
        ];
        for r in &results {
            canonical(r, &(&prod % p), &format!("product of {} elements from another kind of iterator", n))?;
        }
        if n < vals.len() {
            sum += &vals[n];
            prod = prod * &vals[n] % p;
        }
    }
    Ok(Info::new(nontrivial)
        .label(wrap, "sum wraps")
        .label(borrow, "difference borrows")
        .label(vals.len() > 2, "longer sequences")
        .label(a.field >= FIRST_LARGE && a.field < PREDEFINED, "RFC 5114 field"))
}

struct M01;
impl Prop for M01 {
    type Case = Args;
    const ID: &'static str = "M01";
    const RULE: &'static str = "Cases: all pairs of elements of the fields below 32 (257 in the thorough tier) and all pairs of boundary elements (0.., p-1.., 2^k and p/2^k with neighbours) of the 14 predefined and 9 user-declared fields; then random sequences of 0..8 related elements (equal, negated, off by one, inverse), built from canonical and wrapped integers, and sums and products of up to 70 001 elements. Oracle: plain integer arithmetic reduced modulo the prime. Non-trivial: some pair of nonzero operands.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's +, *, % and comparison on plain integers are right."];
    fn fixed(tier: Tier, _: u64) -> Vec<Args> {
        let mut v = pairs(tier);
        for field in 0..FIELDS {
            for long in [9usize, 16, 17, 33, 65, 100, 128, 129, 200, 256, 257, 512, 513, 1000, 1025, 4097, 10_000, 65_537, 70_001] {
                for els in [vec![El::Rand(3), El::Top(0), El::Rand(4)], vec![El::Top(0)], vec![El::Small(2)]] {
                    v.push(Args { field, els, wraps: vec![0, 1], long });
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(250_000, 12_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Args> {
        prop_oneof![200 => args(0, 8), 1 => (args(1, 8), 1usize..3000).prop_map(|(a, long)| Args { long, ..a })].boxed()
    }
    fn check(a: &Args) -> Res {
        with_field!(a.field, |F| check_ring::<F>(a, &prime(a.field)))
    }
}

// ------------------------------------------------------------------------------------------------ M02

fn check_inverse<F: PrimeField>(a: &Args, p: &BigUint) -> Res {
    let vals = values(&a.els, p);
    let els: Vec<F> = build(&vals, &a.wraps, p);
    let mut deep = false;
    for (x, v) in els.iter().zip(&vals) {
        if v.is_zero() {
            continue;
        }
        let i = x.inverse();
        canonical(&i, &inv_ref(v, p), &format!("inverse of 0x{:x}", v))?;
        ensure!((x.clone() * i.clone()).is_one(), "0x{:x} times its inverse is not one", v);
        canonical(&i.inverse(), v, "inverse of the inverse")?;
    }
    // all pairs, and the field prime itself on either side
    let mut xs: Vec<(F, BigUint)> = els.into_iter().zip(vals.iter().cloned()).collect();
    xs.push((F::field_prime(), p.clone()));
    for (x, vx) in &xs {
        for (y, vy) in &xs {
            if vx.is_zero() && vy.is_zero() {
                continue;
            }
            let (d, cs, ct) = F::extended_greatest_common_divisor(x, y);
            let what = format!("extended gcd of 0x{:x} and 0x{:x}", vx, vy);
            let g = gcd_ref(vx, vy);
            if g != *p {
                canonical(&d, &g, &what)?;
            } else {
                // the prime itself represents zero
                ensure!((d.as_uint() % p).is_zero(), "{}: got 0x{:x}", what, d.as_uint());
            }
            let (cs, ct) = (cs.as_uint(), ct.as_uint());
            ensure!(cs < *p && ct < *p, "{}: coefficients not canonical", what);
            ensure_eq!(s(&((vx * &cs + vy * &ct) % p)), s(&(d.as_uint() % p)), "{}: Bezout identity", what);
            deep |= !vx.is_zero() && !vy.is_zero() && vx != vy;
            if !vy.is_zero() && vx != p && vy != p {
                let q = x.clone() / y.clone();
                let r = x.clone() % y.clone();
                canonical(&q, &(vx / vy), &format!("0x{:x} / 0x{:x}", vx, vy))?;
                canonical(&r, &(vx % vy), &format!("0x{:x} % 0x{:x}", vx, vy))?;
                ensure!(r.as_uint() < *vy, "remainder not below divisor");
                ensure!(q * y.clone() + r == *x, "(a/b)*b + a%b differs from a for 0x{:x}, 0x{:x}", vx, vy);
            }
        }
    }
    Ok(Info::new(deep)
        .label(a.field >= FIRST_LARGE && a.field < PREDEFINED, "RFC 5114 field")
        .label(vals.iter().any(|v| *v == p - 1u32), "has p-1"))
}

struct M02;
impl Prop for M02 {
    type Case = Args;
    const ID: &'static str = "M02";
    const RULE: &'static str = "Cases: every element of the fields below 8192 (quick: every one below 32 and 1500 of the larger ones), all pairs of boundary elements, then random related elements of all 23 fields; each case inverts every nonzero element and runs the extended Euclidean algorithm, division and remainder on all pairs including the field prime. Oracle: iterative Euclid on plain integers, Bezout and division identities. Non-trivial: some pair of different nonzero elements.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's arithmetic on plain integers is right."];
    fn fixed(tier: Tier, _: u64) -> Vec<Args> {
        let mut v: Vec<Args> = vec![];
        for field in 0..FIELDS {
            let p = prime(field);
            if p.bits() <= 13 {
                let n = p.to_bytes_le().iter().rev().fold(0u64, |a, b| a * 256 + *b as u64);
                let step = tier.pick((n / 1500).max(1), 1);
                for x in (1..n).step_by(step as usize) {
                    v.push(Args { field, els: vec![El::Small(x)], wraps: vec![0], long: 0 });
                }
            }
        }
        let keep = |a: &Args, i: usize| {
            a.field < FIRST_LARGE || a.field >= PREDEFINED || tier == Tier::Thorough || i % 37 == 0
        };
        v.extend(pairs(tier).into_iter().enumerate().filter(|(i, a)| keep(a, *i)).map(|x| x.1));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(80_000, 2_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Args> {
        args(1, 3)
    }
    fn check(a: &Args) -> Res {
        with_field!(a.field, |F| check_inverse::<F>(a, &prime(a.field)))
    }
}

// ------------------------------------------------------------------------------------------------ M03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PowCase {
    field: usize,
    base: El,
    e1: El,
    e2: El,
    modulus: El,
}

fn check_pow<F: PrimeField>(c: &PowCase, p: &BigUint) -> Res {
    let v = values(&[c.base.clone(), c.e1.clone(), c.e2.clone(), c.modulus.clone()], p);
    let f: Vec<F> = build(&v, &[0], p);
    let (b, e1, e2, m) = (&f[0], &f[1], &f[2], &f[3]);
    let what = |e: &BigUint| format!("0x{:x} ^ 0x{:x}", v[0], e);
    let x1 = b.pow(e1);
    canonical(&x1, &modpow_ref(&v[0], &v[1], p), &what(&v[1]))?;
    let x2 = b.pow(e2);
    canonical(&x2, &modpow_ref(&v[0], &v[2], p), &what(&v[2]))?;
    // exponents add as integers
    let sum = &v[1] + &v[2];
    canonical(&(x1 * x2), &modpow_ref(&v[0], &sum, p), "product of powers")?;
    canonical(&b.pow(&F::zero()), &BigUint::one(), "power zero")?;
    canonical(&b.pow(&F::one()), &v[0], "power one")?;
    if !v[0].is_zero() {
        canonical(&b.pow(&F::from(p - 1u32)), &BigUint::one(), "Fermat's little theorem")?;
    }
    canonical(&b.pow(&F::field_prime()), &v[0], "power p")?;
    canonical(&b.modpow(e1, &F::field_prime()), &modpow_ref(&v[0], &v[1], p), "modpow modulo the field prime")?;
    if !v[3].is_zero() {
        let want = modpow_ref(&v[0], &v[1], &v[3]);
        canonical(&b.modpow(e1, m), &want, &format!("{} mod 0x{:x}", what(&v[1]), v[3]))?;
    }
    let even = !v[3].is_zero() && (&v[3] % 2u32).is_zero();
    Ok(Info::new(v[0] > BigUint::one() && v[1] > BigUint::one())
        .label(even, "even modulus")
        .label(v[3].is_one(), "modulus one")
        .label(v[1].bits() > 64, "exponent above 64 bits")
        .label(v[0] >= v[3], "base not below modulus")
        .label(c.field >= FIRST_LARGE && c.field < PREDEFINED, "RFC 5114 field"))
}

struct M03;
impl Prop for M03 {
    type Case = PowCase;
    const ID: &'static str = "M03";
    const RULE: &'static str = "Cases: every (base, exponent, modulus) of the fields up to 11, every (base, exponent) of the 31-element field, then random boundary-biased bases, exponents and moduli (odd, even, one, powers of two) in all 23 fields. Oracle: square-and-multiply on plain integers; exponent addition; Fermat. Non-trivial: base and exponent above one.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's *, % on plain integers are right (its modpow is not relied on)."];
    fn fixed(_: Tier, _: u64) -> Vec<PowCase> {
        let mut v = vec![];
        for (field, p) in [(0usize, 3u64), (1, 7), (14, 2), (15, 5), (16, 11)] {
            for b in 0..p {
                for e in 0..p {
                    for m in 0..p {
                        v.push(PowCase { field, base: El::Small(b), e1: El::Small(e), e2: El::Small(m), modulus: El::Small(m) });
                    }
                }
            }
        }
        for b in 0..31 {
            for e in 0..31 {
                v.push(PowCase { field: 2, base: El::Small(b), e1: El::Small(e), e2: El::Top(e), modulus: El::Small((b * 7 + e) % 31) });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(9_000, 300_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<PowCase> {
        let f = prop_oneof![12 => 0usize..FIRST_LARGE, 1 => FIRST_LARGE..PREDEFINED, 7 => PREDEFINED..FIELDS];
        (f, el(), rel_el(), rel_el(), rel_el())
            .prop_map(|(field, base, e1, e2, modulus)| PowCase { field, base, e1, e2, modulus })
            .boxed()
    }
    fn check(c: &PowCase) -> Res {
        with_field!(c.field, |F| check_pow::<F>(c, &prime(c.field)))
    }
}

// ------------------------------------------------------------------------------------------------ M04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Conv {
    /// low 64 bits, high 64 bits: read as every primitive width and sign
    Prim { field: usize, lo: u64, hi: u64 },
    /// the prime times k plus d, as signed machine integer where it fits
    NearMultiple { field: usize, k: u64, d: i8 },
    Big { field: usize, bytes: Vec<u8> },
    Numeral { field: usize, digits: Vec<u8>, radix: u8, upper: u64 },
    /// digits with something in front or in between that makes the numeral invalid
    Bad { field: usize, digits: Vec<u8>, radix: u8, pos: u8, ch: char },
    Elem { field: usize, el: El },
    /// a numeral of `len` digits, or with radix 0 an integer of `len` bytes
    Long { field: usize, len: usize, radix: u8, seed: u64, bad: bool },
}

impl Conv {
    fn field(&self) -> usize {
        match self {
            Conv::Prim { field, .. }
            | Conv::NearMultiple { field, .. }
            | Conv::Big { field, .. }
            | Conv::Numeral { field, .. }
            | Conv::Bad { field, .. }
            | Conv::Long { field, .. }
            | Conv::Elem { field, .. } => *field,
        }
    }
}

fn umod(x: u128, p: &BigUint) -> BigUint {
    (BigUint::from((x >> 64) as u64) << 64) % p + BigUint::from(x as u64) % p
}

fn imod(x: i128, p: &BigUint) -> BigUint {
    let m = umod(x.unsigned_abs(), p) % p;
    if x < 0 {
        (p - m) % p
    } else {
        m
    }
}

fn opt<F: PrimeField>(got: Option<F>, want: BigUint, must: bool, what: String) -> Result<bool, String> {
    match got {
        Some(e) => {
            canonical(&e, &want, &what)?;
            Ok(true)
        }
        None if must => Err(format!("{}: reported as not representable", what)),
        None => Ok(false),
    }
}

fn prims<F: PrimeField>(lo: u64, hi: u64, p: &BigUint) -> Result<(), String> {
    macro_rules! each {
        ($($t:ident $f:ident $m:ident),*) => {$({
            let x = lo as $t;
            opt(F::$f(x), $m(x as _, p), true, format!("{}({})", stringify!($f), x))?;
        })*};
    }
    each!(u8 from_u8 umod, u16 from_u16 umod, u32 from_u32 umod, u64 from_u64 umod, usize from_usize umod,
          i8 from_i8 imod, i16 from_i16 imod, i32 from_i32 imod, i64 from_i64 imod, isize from_isize imod);
    for w in [(hi as u128) << 64 | lo as u128, lo as u128, (lo as i64) as i128 as u128, hi as u128] {
        let must = w <= u64::MAX as u128;
        opt(F::from_u128(w), umod(w, p) % p, must, format!("from_u128({})", w))?;
        let i = w as i128;
        let must = i >= i64::MIN as i128 && i <= i64::MAX as i128;
        opt(F::from_i128(i), imod(i, p), must, format!("from_i128({})", i))?;
    }
    Ok(())
}

/// Every way to get at the integer behind an element, and back.
fn round_trip<F: PrimeField + Into<BigUint>>(e: &F, want: &BigUint) -> Result<(), String> {
    canonical(e, want, "as_uint")?;
    let i: BigUint = e.clone().into();
    ensure_eq!(s(&i), s(want), "conversion into a big integer");
    canonical(&F::from(i), want, "conversion from the big integer")?;
    Ok(())
}

fn check_conv<F: PrimeField + Into<BigUint>>(c: &Conv, p: &BigUint) -> Res
where
    F::FromStrRadixErr: std::fmt::Debug,
{
    match c {
        Conv::Prim { lo, hi, .. } => {
            prims::<F>(*lo, *hi, p)?;
            let e = F::from_u64(*lo).unwrap();
            round_trip(&e, &(BigUint::from(*lo) % p))?;
            Ok(Info::new(*lo > 1)
                .label((*lo as i64) < 0, "negative as i64")
                .label(*lo == 1 << 63, "most negative i64"))
        }
        Conv::NearMultiple { k, d, .. } => {
            // +-(k p + d), for every machine width it fits
            let n = p * BigUint::from(*k) + 3u32;
            let n = if *d >= 0 { n + *d as u32 } else { n - (-(*d as i32)) as u32 };
            let b = n.to_bytes_le();
            if b.len() > 8 {
                canonical(&F::from(n.clone()), &(&n % p), "from big integer")?;
                return Ok(Info::new(true).label(true, "multiple of p beyond 64 bits"));
            }
            let x = b.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
            prims::<F>(x, 0, p)?;
            prims::<F>(x.wrapping_neg(), u64::MAX, p)?;
            Ok(Info::new(true).label(true, "near a multiple of p"))
        }
        Conv::Big { bytes, .. } => {
            let n = BigUint::from_bytes_le(bytes);
            let want = &n % p;
            let e = F::from(n.clone());
            canonical(&e, &want, &format!("from big integer 0x{:x}", n))?;
            round_trip(&e, &want)?;
            Ok(Info::new(n >= *p).label(n >= *p, "beyond the prime"))
        }
        Conv::Numeral { digits, radix, upper, .. } => {
            let r = *radix as u32;
            let (mut text, mut n) = (String::new(), BigUint::zero());
            for (i, d) in digits.iter().enumerate() {
                let d = *d as u32 % r;
                let ch = std::char::from_digit(d, r).unwrap();
                text.push(if upper >> (i % 64) & 1 == 1 { ch.to_ascii_uppercase() } else { ch });
                n = n * r + d;
            }
            match F::from_str_radix(&text, r) {
                Ok(e) => canonical(&e, &(&n % p), &format!("numeral {:?} in radix {}", text, r))?,
                Err(e) => return Err(format!("valid numeral {:?} in radix {} refused: {:?}", text, r, e)),
            }
            Ok(Info::new(n > BigUint::one()).label(n >= *p, "numeral beyond the prime").label(r > 10, "radix above 10"))
        }
        Conv::Bad { digits, radix, pos, ch, .. } => {
            let r = *radix as u32;
            let mut t: Vec<char> = digits.iter().map(|d| std::char::from_digit(*d as u32 % r, r).unwrap()).collect();
            if ch.to_digit(r).is_some() || *ch == '+' || *ch == '_' {
                // not an invalid numeral: only the empty one is checked
                t.clear();
            } else {
                t.insert(*pos as usize % (t.len() + 1), *ch);
            }
            let text: String = t.into_iter().collect();
            if let Ok(e) = F::from_str_radix(&text, r) {
                return Err(format!("invalid numeral {:?} in radix {} accepted as 0x{:x}", text, r, e.as_uint()));
            }
            Ok(Info::new(true).label(true, "invalid numeral"))
        }
        Conv::Long { len, radix: 0, seed, .. } => {
            let mut bytes = Sm(*seed).bytes(*len);
            bytes.push(1);
            let n = BigUint::from_bytes_le(&bytes);
            canonical(&F::from(n.clone()), &(n % p), &format!("from big integer of {} bytes", bytes.len()))?;
            Ok(Info::new(true).label(true, "beyond the prime"))
        }
        Conv::Long { len, radix, seed, bad, .. } => {
            let r = *radix as u32;
            let mut coins = Sm(*seed);
            let (mut text, mut want) = (String::new(), BigUint::zero());
            for _ in 0..*len {
                let d = coins.below(r as u64) as u32;
                let ch = std::char::from_digit(d, r).unwrap();
                text.push(if coins.below(2) == 1 { ch.to_ascii_uppercase() } else { ch });
                want = (want * r + d) % p;
            }
            if *seed % 4 == 1 && !*bad {
                // grouped digits, as in the numerals the repository itself uses
                let step = 2 + (*seed / 4 % 15) as usize;
                for i in (1..*len).rev().filter(|i| i % step == 0) {
                    text.insert(i, '_');
                }
            }
            if *bad {
                let at = coins.below(*len as u64) as usize;
                text.replace_range(at..=at, if r < 36 { "z" } else { "~" });
                ensure!(F::from_str_radix(&text, r).is_err(), "numeral of {} digits in radix {} with an invalid one at {} is accepted", len, r, at);
            } else {
                match F::from_str_radix(&text, r) {
                    Ok(e) => canonical(&e, &want, &format!("numeral of {} digits in radix {}", len, r))?,
                    Err(e) => return Err(format!("valid numeral of {} digits in radix {} refused: {:?}", len, r, e)),
                }
            }
            Ok(Info::new(true).label(*bad, "invalid numeral").label(!*bad, "numeral beyond the prime").label(*len > 500, "long numeral"))
        }
        Conv::Elem { el, .. } => {
            let v = el.value(p, &[]);
            round_trip(&F::from(v.clone()), &v)?;
            for r in [2u32, 10, 16, 36] {
                match F::from_str_radix(&v.to_str_radix(r), r) {
                    Ok(e) => canonical(&e, &v, "numeral of an element")?,
                    Err(e) => return Err(format!("numeral of an element refused: {:?}", e)),
                }
            }
            Ok(Info::new(v > BigUint::one()))
        }
    }
}

struct M04;
impl Prop for M04 {
    type Case = Conv;
    const ID: &'static str = "M04";
    const RULE: &'static str = "Cases, in all 23 fields: boundary and random 64/128-bit patterns read as every primitive width and sign, integers near +-k*p, big integers up to 100 000 bytes, valid numerals in every radix 2..36 with mixed case, leading zeros, grouped digits and up to 20 000 digits, invalid numerals (bad character anywhere, empty). Oracle: plain integer value reduced modulo the prime (negatives to the additive inverse); 64-bit integers must be accepted, wider ones may be reported as not representable. Non-trivial: value above one / beyond the prime / invalid numeral.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's arithmetic on plain integers is right.", "A leading '+' and leading, trailing or doubled '_' separators in numerals, which the big-integer parser may accept, are not judged."];
    fn fixed(_: Tier, _: u64) -> Vec<Conv> {
        let mut v = vec![];
        let mut edges: Vec<u64> = (0..130).collect();
        for k in 0..64 {
            for d in [-2i64, -1, 0, 1, 2] {
                edges.push((1u64 << k).wrapping_add(d as u64));
            }
        }
        edges.extend((0..70).map(|i| u64::MAX - i));
        for field in 0..FIELDS {
            for lo in &edges {
                for hi in [0, 1, u64::MAX, 1 << 63] {
                    if hi == 0 || lo % 5 == 0 {
                        v.push(Conv::Prim { field, lo: *lo, hi });
                    }
                }
            }
            for len in [599usize, 1023, 1024, 5000, 65_536, 100_000] {
                v.push(Conv::Long { field, len, radix: 0, seed: len as u64, bad: false });
            }
            for k in [0u64, 1, 2, 3, 1000, 1 << 20, 1 << 31, 1 << 33] {
                for d in -3..=3 {
                    v.push(Conv::NearMultiple { field, k, d });
                }
            }
            for radix in 2..=36u8 {
                v.push(Conv::Bad { field, digits: vec![], radix, pos: 0, ch: '0' });
                for d in 0..36u8 {
                    if d < radix {
                        v.push(Conv::Numeral { field, digits: vec![d], radix, upper: u64::MAX });
                        v.push(Conv::Numeral { field, digits: vec![0, 0, 1, d, 0], radix, upper: 0 });
                    } else {
                        let ch = std::char::from_digit(d as u32, 36).unwrap();
                        v.push(Conv::Bad { field, digits: vec![1], radix, pos: 1, ch });
                    }
                }
                for len in [50usize, 200, 257, 700, 1025, 3000] {
                    v.push(Conv::Long { field, len, radix, seed: len as u64, bad: len % 3 == 2 });
                }
                if [2, 10, 16, 36].contains(&radix) && field % 3 == 1 {
                    v.push(Conv::Long { field, len: 20_000, radix, seed: radix as u64, bad: false });
                }
                for ch in ['-', ' ', '.', '!', 'é', '\u{0}', '/', ':', '@', '[', '`', '{', '٣'] {
                    for pos in 0..3 {
                        v.push(Conv::Bad { field, digits: vec![1, 0], radix, pos, ch });
                    }
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(3_000_000, 40_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Conv> {
        let word = || prop_oneof![
            2 => any::<u64>(),
            1 => (0u32..64, -3i64..4).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
            1 => (0u32..64, -3i64..4).prop_map(|(k, d)| (1u64 << k).wrapping_neg().wrapping_add(d as u64)),
            1 => 0u64..300,
        ];
        let digits = || prop::collection::vec(0u8..36, 1..60);
        prop_oneof![
            4 => (field_id(), word(), word()).prop_map(|(field, lo, hi)| Conv::Prim { field, lo, hi }),
            2 => (field_id(), word(), -3i8..4).prop_map(|(field, k, d)| Conv::NearMultiple { field, k, d }),
            2 => (field_id(), prop::collection::vec(any::<u8>(), 0..600)).prop_map(|(field, bytes)| Conv::Big { field, bytes }),
            2 => (field_id(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(field, bytes)| Conv::Big { field, bytes }),
            3 => (field_id(), prop::collection::vec(0u8..36, 1..200), 2u8..37, any::<u64>())
                .prop_map(|(field, digits, radix, upper)| Conv::Numeral { field, digits, radix, upper }),
            2 => (field_id(), digits(), 2u8..37, any::<u8>(), prop_oneof![any::<char>(), prop::char::range('!', '~')])
                .prop_map(|(field, digits, radix, pos, ch)| Conv::Bad { field, digits, radix, pos, ch }),
            2 => (field_id(), el()).prop_map(|(field, el)| Conv::Elem { field, el }),
            1 => (field_id(), 1usize..900, prop_oneof![Just(0u8), 2u8..37], any::<u64>(), prop::bool::weighted(0.2))
                .prop_map(|(field, len, radix, seed, bad)| Conv::Long { field, len, radix, seed, bad }),
        ]
        .boxed()
    }
    fn check(c: &Conv) -> Res {
        with_field!(c.field(), |F| check_conv::<F>(c, &prime(c.field())))
    }
}

// ------------------------------------------------------------------------------------------------ M05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Enc {
    Elem { field: usize, el: El, zeros: u8 },
    /// the integer p + d padded with zero bytes
    Edge { field: usize, d: i8, zeros: u8 },
    Bytes { field: usize, bytes: Vec<u8> },
    /// as many bytes as the prime has (plus extra), top byte fixed
    Sized { field: usize, extra: i8, top: u8, seed: u64 },
    /// an element padded to `len` bytes; with a nonzero byte at position `at` if that is below `len`
    Padded { field: usize, el: El, len: usize, at: usize },
}

fn decode_both<F: PrimeField>(le: &[u8], p: &BigUint) -> Result<bool, String> {
    // oracle on plain bytes: little-endian positional value
    let mut n = BigUint::zero();
    for b in le.iter().rev() {
        n = (n << 8) + BigUint::from(*b);
    }
    let be: Vec<u8> = le.iter().rev().cloned().collect();
    for (got, what) in [(F::from_bytes_le(le), "little"), (F::from_bytes_be(&be), "big")] {
        match got {
            Some(e) => {
                ensure!(n < *p, "{}-endian encoding of 0x{:x} (not below the prime) decoded to 0x{:x}", what, n, e.as_uint());
                canonical(&e, &n, &format!("{}-endian decoding", what))?;
            }
            None => ensure!(n >= *p, "{}-endian encoding of 0x{:x} refused", what, n),
        }
    }
    Ok(n < *p)
}

fn check_enc<F: PrimeField>(c: &Enc, p: &BigUint) -> Res {
    match c {
        Enc::Elem { el, zeros, .. } => {
            let v = el.value(p, &[]);
            let e = F::from(v.clone());
            let (le, be) = (e.as_bytes_le(), e.as_bytes_be());
            let rev: Vec<u8> = le.iter().rev().cloned().collect();
            ensure_eq!(be, rev, "big-endian encoding of 0x{:x} against the reversed little-endian one", v);
            match F::from_bytes_le(&le) {
                Some(d) => canonical(&d, &v, "little-endian round trip")?,
                None => return Err(format!("own little-endian encoding of 0x{:x} refused", v)),
            }
            match F::from_bytes_be(&be) {
                Some(d) => canonical(&d, &v, "big-endian round trip")?,
                None => return Err(format!("own big-endian encoding of 0x{:x} refused", v)),
            }
            let mut padded = le.clone();
            padded.extend(vec![0u8; *zeros as usize]);
            decode_both::<F>(&padded, p)?;
            Ok(Info::new(v > BigUint::one()).label(*zeros > 0, "padded").label(v.is_zero(), "zero"))
        }
        Enc::Edge { d, zeros, .. } => {
            let n = if *d >= 0 { p + *d as u32 } else { p - ((-(*d as i32)) as u32).min(2) };
            let mut b = n.to_bytes_le();
            b.extend(vec![0u8; *zeros as usize]);
            let ok = decode_both::<F>(&b, p)?;
            Ok(Info::new(true).label(ok, "just below the prime").label(!ok, "prime or above"))
        }
        Enc::Bytes { bytes, .. } => {
            let ok = decode_both::<F>(bytes, p)?;
            Ok(Info::new(!bytes.is_empty()).label(!ok, "refused").label(bytes.is_empty(), "empty string"))
        }
        Enc::Padded { el, len, at, .. } => {
            let mut b = el.value(p, &[]).to_bytes_le();
            b.resize(*len.max(&b.len()), 0);
            if *at < b.len() {
                b[*at] |= 1;
            }
            let ok = decode_both::<F>(&b, p)?;
            Ok(Info::new(true).label(!ok, "refused").label(ok, "padded"))
        }
        Enc::Sized { extra, top, seed, .. } => {
            let n = ((p.bits() as i64 + 7) / 8 + *extra as i64).max(1) as usize;
            let mut b = Sm(*seed).bytes(n);
            b[n - 1] = *top;
            let ok = decode_both::<F>(&b, p)?;
            Ok(Info::new(true).label(!ok, "refused").label(ok, "accepted"))
        }
    }
}

struct M05;
impl Prop for M05 {
    type Case = Enc;
    const ID: &'static str = "M05";
    const RULE: &'static str = "Cases, in all 23 fields: all one- and two-byte strings for the small fields, integers p-2..p+20 with 0..5 padding zeros, all boundary elements, then random elements with padding, byte strings of 0..300 bytes, elements padded to as many as 70 000 bytes with at most one nonzero byte in the padding, and strings of the prime's own size +-2 with a chosen top byte. Oracle: positional value of the bytes compared with the prime. Non-trivial: value above one / any byte string at the size of the prime.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's comparison and shifts on plain integers are right."];
    fn fixed(tier: Tier, _: u64) -> Vec<Enc> {
        let mut v = vec![];
        for field in 0..FIELDS {
            v.push(Enc::Bytes { field, bytes: vec![] });
            for a in 0..=255u8 {
                v.push(Enc::Bytes { field, bytes: vec![a] });
                if [0, 1, 2, 3, 14, 15, 16, 17].contains(&field) {
                    let step = tier.pick(5, 1);
                    for b in (0..=255u8).step_by(step).chain([1, 2, 31, 32, 255]) {
                        v.push(Enc::Bytes { field, bytes: vec![a, b] });
                    }
                }
            }
            for d in -2..=20 {
                for zeros in 0..5 {
                    v.push(Enc::Edge { field, d, zeros });
                }
            }
            for len in [300usize, 511, 512, 513, 1025, 2000, 65_536, 65_537, 70_000] {
                for at in [len, len - 1, len - 2, len / 2, 256, 2, 0] {
                    v.push(Enc::Padded { field, el: El::Rand(len as u64), len, at });
                }
            }
            for x in 0..300 {
                v.push(Enc::Elem { field, el: El::Small(x), zeros: (x % 3) as u8 });
                v.push(Enc::Elem { field, el: El::Top(x), zeros: (x % 3) as u8 });
            }
            for k in 0..prime(field).bits() as u16 {
                for d in -1..=1 {
                    v.push(Enc::Elem { field, el: El::Pow2(k, d), zeros: 0 });
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(5_000_000, 60_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Enc> {
        prop_oneof![
            4 => (field_id(), el(), prop_oneof![Just(0u8), 0u8..40]).prop_map(|(field, el, zeros)| Enc::Elem { field, el, zeros }),
            1 => (field_id(), any::<i8>(), 0u8..40).prop_map(|(field, d, zeros)| Enc::Edge { field, d, zeros }),
            2 => (field_id(), prop::collection::vec(any::<u8>(), 0..24)).prop_map(|(field, bytes)| Enc::Bytes { field, bytes }),
            1 => (field_id(), prop::collection::vec(any::<u8>(), 0..300)).prop_map(|(field, bytes)| Enc::Bytes { field, bytes }),
            3 => (field_id(), -2i8..3, prop_oneof![Just(0u8), Just(255), 0u8..8, any::<u8>()], any::<u64>())
                .prop_map(|(field, extra, top, seed)| Enc::Sized { field, extra, top, seed }),
            1 => (field_id(), el(), 1usize..2000, any::<u16>()).prop_map(|(field, el, len, at)| Enc::Padded { field, el, len, at: if at % 3 == 0 { len } else { at as usize % len } }),
        ]
        .boxed()
    }
    fn check(c: &Enc) -> Res {
        let f = match c {
            Enc::Elem { field, .. } | Enc::Edge { field, .. } | Enc::Bytes { field, .. } | Enc::Sized { field, .. } | Enc::Padded { field, .. } => *field,
        };
        with_field!(f, |F| check_enc::<F>(c, &prime(f)))
    }
}

// ------------------------------------------------------------------------------------------------ M06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dist {
    field: usize,
    seed: u64,
    draws: u32,
}

fn check_dist<F: PrimeField>(c: &Dist, p: &BigUint) -> Res {
    let mut rng = DetRng::new(c.seed);
    let n = c.draws as usize;
    let lowu = |v: &BigUint| v.to_bytes_le().iter().take(8).rev().fold(0u64, |a, b| a << 8 | *b as u64);
    let bad = |r: Option<String>| r.map_or(Ok(()), Err);
    let mut draw = || -> Result<BigUint, String> {
        let v = F::generate_random_member(&mut rng).as_uint();
        ensure!(v < *p, "random member 0x{:x} is not canonical", v);
        Ok(v)
    };
    if p.bits() <= 13 {
        let k = lowu(p) as usize;
        if n > 5_000_000 {
            // a bias of one part in a few hundred, such as from reducing some bits too many modulo the prime
            let mut h = vec![0u64; k];
            for _ in 0..n {
                h[lowu(&draw()?) as usize] += 1;
            }
            bad(stats::uniform(&h, "distribution of random members"))?;
            let seen = (0..k).map(|i| jv::fnv(&(i as u64).to_le_bytes()) ^ jv::mix(c.field as u64)).collect();
            return Ok(Info::new(true).label(true, "long stream").sub(n as u64, seen));
        }
        let mut xs: Vec<u16> = Vec::with_capacity(n);
        for _ in 0..n {
            xs.push(lowu(&draw()?) as u16);
        }
        let mut h = vec![0u64; k];
        for x in &xs {
            h[*x as usize] += 1;
        }
        if n >= 5 * k {
            bad(stats::uniform(&h, "distribution of random members"))?;
        }
        // support: with 60 expected draws per element a missing one has probability below e^-60
        if n >= 60 * k {
            if let Some(i) = h.iter().position(|c| *c == 0) {
                return Err(format!("element {} is never drawn in {} draws", i, n));
            }
        }
        if k <= 31 {
            // pairs of successive draws (lag 1 and 2, disjoint pairs)
            for lag in 1..=2usize {
                let mut h = vec![0u64; k * k];
                for w in xs.chunks(2 * lag) {
                    if w.len() == 2 * lag {
                        for j in 0..lag {
                            h[w[j] as usize * k + w[j + lag] as usize] += 1;
                        }
                    }
                }
                bad(stats::uniform(&h, &format!("joint distribution of draws at lag {}", lag)))?;
            }
        }
        let seen = (0..k).filter(|i| h[*i] > 0).map(|i| jv::fnv(&(i as u64).to_le_bytes()) ^ jv::mix(c.field as u64)).collect();
        return Ok(Info::new(n >= 1000).sub(n as u64, seen));
    }
    let mut xs: Vec<BigUint> = Vec::with_capacity(n);
    for _ in 0..n {
        xs.push(draw()?);
    }
    // position within the range, in slices that are equal up to less than one part in a thousand
    {
        let slices = 64u32;
        let slice = |x: &BigUint| lowu(&(x * slices / p)) as usize;
        let mut h = vec![0u64; slices as usize];
        let mut pairs = vec![0u64; 256];
        let mut low = vec![0u64; 64];
        for (i, x) in xs.iter().enumerate() {
            h[slice(x)] += 1;
            low[(lowu(x) & 63) as usize] += 1;
            if i % 2 == 1 {
                pairs[slice(x) / 4 * 16 + slice(&xs[i - 1]) / 4] += 1;
            }
        }
        bad(stats::uniform(&h, "position of random members within the field"))?;
        bad(stats::uniform(&low, "low bits of random members"))?;
        bad(stats::uniform(&pairs, "joint position of successive draws"))?;
        if p.bits() >= 61 {
            // successive draws and draws of another stream do not repeat
            let mut sorted = xs.clone();
            sorted.sort();
            sorted.dedup();
            // birthday bound for 61 bits and 2^15 draws is below 2^-31; more repetitions than one are not chance
            ensure!(sorted.len() + 1 >= xs.len(), "{} of {} draws repeat", xs.len() - sorted.len(), xs.len());
        }
        if p.bits() >= 60 {
            // no polynomial recurrence
            let rows = xs.windows(4).take(40).map(|w| jv::rank::features(w, p)).collect();
            if let Some(r) = jv::rank::relation(rows, p) {
                return Err(format!("successive random members always satisfy {}", jv::rank::describe(&r, 4, &|i| format!("x{}", i))));
            }
        }
        // every bit is set half of the time, except for the topmost ones (judged above) of primes far from a power of two
        let mut ones = vec![0u64; p.bits() - 8];
        for x in &xs {
            let bytes = x.to_bytes_le();
            for (bit, count) in ones.iter_mut().enumerate() {
                *count += bytes.get(bit / 8).map_or(0, |b| (b >> (bit % 8) & 1) as u64);
            }
        }
        for (bit, ones) in ones.iter().enumerate() {
            bad(stats::uniform(&[*ones, n as u64 - *ones], &format!("bit {} of random members", bit)))?;
        }
    }
    // a different seed gives different draws
    if p.bits() >= 61 {
        let mut other = DetRng::new(c.seed ^ 0x5555);
        let y = F::generate_random_member(&mut other).as_uint();
        ensure!(!xs.contains(&y), "another generator state yields the same member");
    }
    Ok(Info::new(n >= 1000).sub(n as u64, xs.iter().map(|x| jv::fnv(&x.to_bytes_le()) ^ jv::mix(c.field as u64)).collect()))
}

struct M06;
impl Prop for M06 {
    type Case = Dist;
    const ID: &'static str = "M06";
    const RULE: &'static str = "Cases: for each of the 23 fields, streams of random members drawn from differently seeded uniform generators; one evaluation is one draw, distinct means distinct (field, value). Oracle: range, complete support and equal frequencies in fields up to 8191 elements (chi-square), equal frequencies of range slices, low bits and single bits and of pairs of successive draws in larger ones, no repetition, no quadratic recurrence (exact rank). False-alarm bound per judgement 1e-10.";
    const ASSUMPTIONS: &'static [&'static str] = &["The splitmix64 generator of the harness is uniform.", "Deviations smaller than the test's resolution are not seen."];
    fn fixed(tier: Tier, seed: u64) -> Vec<Dist> {
        let mut v = vec![];
        for field in 0..FIELDS {
            let bits = prime(field).bits();
            let (n, streams) = if bits <= 5 {
                // small deviations, such as from giving up after some rejected candidates
                v.push(Dist { field, seed: jv::mix(seed ^ (99_000 + field as u64)), draws: tier.pick(60_000_000, 1_000_000_000) });
                (3_000_000, 1)
            } else if bits <= 9 {
                (300_000, 4)
            } else if bits <= 13 {
                (600_000, 2)
            } else if bits <= 300 {
                (30_000, 6)
            } else {
                (12_000, 4)
            };
            for i in 0..streams * tier.pick(4, 60) {
                v.push(Dist { field, seed: jv::mix(seed ^ (i * 1000 + field as u64)), draws: n });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(16, 800)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Dist> {
        (field_id(), any::<u64>(), 2_000u32..30_000).prop_map(|(field, seed, draws)| Dist { field, seed, draws }).boxed()
    }
    fn check(c: &Dist) -> Res {
        with_field!(c.field, |F| check_dist::<F>(c, &prime(c.field)))
    }
}

// ------------------------------------------------------------------------------------------------ M07

/// One generated declaration.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Decl {
    /// prime: the smallest one not below this number of bits with these random low bits
    bits: u16,
    seed: u64,
    radix: u8,
    upper: bool,
    zeros: u8,
    vis: u8,
    /// if not empty, these digits instead of a prime made from `bits` and `seed`
    #[serde(default)]
    digits: String,
    /// underscores between some digits
    #[serde(default)]
    groups: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fields {
    Predefined(usize),
    /// programs; each a list of macro invocations; each a list of declarations
    Programs(Vec<Vec<Vec<Decl>>>),
}

impl Decl {
    fn prime(&self) -> BigUint {
        if !self.digits.is_empty() {
            return self.digits.chars().fold(BigUint::zero(), |n, c| n * self.radix as u32 + c.to_digit(self.radix as u32).unwrap_or(0));
        }
        prime_of(self.bits as usize, self.seed)
    }
    /// Declarations by the same digits in all the radixes in which they denote a prime.
    fn in_all_radixes(digits: &str) -> Vec<Decl> {
        (2..=36u8)
            .filter(|r| digits.chars().all(|c| c.is_digit(*r as u32)))
            .map(|r| Decl { bits: 0, seed: r as u64, radix: r, upper: false, zeros: 0, vis: 0, digits: digits.to_string(), groups: false })
            .filter(|d| is_prime(&d.prime()))
            .collect()
    }
    /// The prime 2^k - 1.
    fn mersenne(k: usize, radix: u8) -> Decl {
        let digits = ((BigUint::one() << k) - 1u32).to_str_radix(radix as u32);
        Decl { bits: 0, seed: k as u64, radix, upper: false, zeros: 0, vis: 0, digits, groups: false }
    }
    fn literal(&self) -> String {
        let r = self.radix as u32;
        let mut n = self.prime();
        let mut t = vec![];
        while !n.is_zero() {
            let d = (&n % r).to_bytes_le()[0] as u32;
            let ch = std::char::from_digit(d, r).unwrap();
            t.push(if self.upper { ch.to_ascii_uppercase() } else { ch });
            n = n / r;
        }
        t.extend(std::iter::repeat('0').take(self.zeros as usize));
        t.reverse();
        if self.groups {
            let mut sm = Sm(self.seed);
            for i in (1..t.len()).rev() {
                if sm.below(4) == 0 {
                    t.insert(i, '_');
                }
            }
        }
        t.into_iter().collect()
    }
}

const NAMES: [&str; 6] = ["F", "Field_", "A", "PRIME", "PrimeNumber", "Zp"];

/// Source text of a program that declares the fields and evaluates lines "field a b" from standard input.
fn program(invs: &[Vec<Decl>]) -> String {
    let mut src = String::from(
        "#![recursion_limit = \"512\"]\n#![allow(dead_code)]\nuse jester_maths::prime::PrimeField;\nuse jester_maths::prime_fields;\nuse mashup::*;\nuse num::BigUint;\nuse num::Num;\nuse std::io::BufRead;\n\n",
    );
    // mashup allows one invocation per module: the first one goes to the root, the others to modules of their own
    let mut names = vec![];
    let mut k = 0;
    for inv in invs.iter().filter(|i| !i.is_empty()) {
        let mut parts = vec![];
        for d in inv {
            let i = names.len();
            let name = format!("{}{}", NAMES[(d.seed % 6) as usize], i);
            let vis = if k == 0 { ["pub ", "", "pub(crate) "] } else { ["pub ", "pub(super) ", "pub(crate) "] };
            parts.push(format!("    {}{}(\"{}\", {})", vis[d.vis as usize % 3], name, d.literal(), d.radix));
            names.push(if k == 0 { name } else { format!("m{}::{}", k, name) });
        }
        let decl = format!("prime_fields!(\n{}\n);\n\n", parts.join(",\n"));
        if k == 0 {
            src += &decl;
        } else {
            src += &format!(
                "mod m{} {{\n    use jester_maths::prime::PrimeField;\n    use jester_maths::prime_fields;\n    use mashup::*;\n    {}}}\n\n",
                k, decl
            );
        }
        k += 1;
    }
    src += "fn big(s: &str) -> BigUint { BigUint::from_str_radix(s, 16).unwrap() }\n\
            fn eval<F: PrimeField>(a: &str, b: &str) -> String {\n\
            \x20   let (x, y): (F, F) = (big(a).into(), big(b).into());\n\
            \x20   let h = |f: F| f.as_uint().to_str_radix(16);\n\
            \x20   let inv = if x.is_zero() { \"-\".to_string() } else { h(x.inverse()) };\n\
            \x20   let dec = match F::from_bytes_le(&big(a).to_bytes_le()) { Some(e) => h(e), None => \"-\".to_string() };\n\
            \x20   format!(\"{} {} {} {} {} {} {} {} {}\", h(F::field_prime()), h(x.clone() + y.clone()), h(x.clone() - y.clone()),\n\
            \x20       h(x.clone() * y.clone()), inv, h(x.pow(&y)), dec, h(F::zero() - F::one()), h(vec![x.clone(), y, x].into_iter().sum()))\n\
            }\n\nfn main() {\n    // first use from several threads at once\n    let ts: Vec<std::thread::JoinHandle<()>> = vec![\n";
    for n in &names {
        src += &format!("        std::thread::spawn(|| {{ let _ = {}::field_prime(); }}),\n", n);
    }
    src += "    ];\n    for t in ts { t.join().unwrap(); }\n    for line in std::io::stdin().lock().lines() {\n        let line = line.unwrap();\n        let w: Vec<&str> = line.split(' ').collect();\n        let out = match w[0] {\n";
    for (i, n) in names.iter().enumerate() {
        src += &format!("            \"{}\" => eval::<{}>(w[1], w[2]),\n", i, n);
    }
    src += "            _ => panic!(),\n        };\n        println!(\"{}\", out);\n    }\n}\n";
    src
}

fn operands(p: &BigUint, seed: u64) -> Vec<(BigUint, BigUint)> {
    let mut sm = Sm(seed);
    let els = |sm: &mut Sm| match sm.below(6) {
        0 => El::Small(sm.below(4)),
        1 => El::Top(sm.below(4)),
        2 => El::Pow2(sm.below(600) as u16, 0),
        _ => El::Rand(sm.next()),
    };
    (0..24)
        .map(|i| {
            let (a, b) = (els(&mut sm).value(p, &[]), els(&mut sm).value(p, &[]));
            // some operands outside the field
            if i % 4 == 3 { (a + p, b + p * 5u32) } else { (a, b) }
        })
        .collect()
}

fn check_programs(ps: &[Vec<Vec<Decl>>]) -> Res {
    const DEPS: &str = "jester_maths = { path = \"/repo/jester_maths\" }\nmashup = \"0.1.9\"\nnum = \"0.2.0\"";
    static CONTROL: std::sync::Once = std::sync::Once::new();
    // one package at a time
    static LOCK: std::sync::Mutex<Option<jv::gen::Package>> = std::sync::Mutex::new(None);
    let mut guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let pkg = guard.get_or_insert_with(|| jv::gen::Package::new("jvgenfields", DEPS));
    CONTROL.call_once(|| {
        let c = Decl { bits: 5, seed: 0, radix: 10, upper: false, zeros: 0, vis: 0, digits: String::new(), groups: false };
        pkg.control(&program(&[vec![c]]))
    });
    let srcs: Vec<String> = ps.iter().map(|p| program(p)).collect();
    if let Err(e) = pkg.build(&srcs) {
        return Err(format!("valid field declarations do not compile:\n{}", e.lines().take(40).collect::<Vec<_>>().join("\n")));
    }
    let mut distinct = vec![];
    let mut evals = 0;
    for (i, p) in ps.iter().enumerate() {
        let decls: Vec<&Decl> = p.iter().flatten().collect();
        let primes: Vec<BigUint> = decls.iter().map(|d| d.prime()).collect();
        // interleave the fields
        let mut jobs: Vec<(usize, BigUint, BigUint)> = vec![];
        for (k, q) in primes.iter().enumerate() {
            for (a, b) in operands(q, k as u64 + 99) {
                jobs.push((k, a, b));
            }
        }
        Sm(i as u64).shuffle(&mut jobs);
        let input: String = jobs.iter().map(|(k, a, b)| format!("{} {:x} {:x}\n", k, a, b)).collect();
        let out = pkg.run(i, &input)?;
        let lines: Vec<&str> = out.lines().collect();
        ensure_eq!(lines.len(), jobs.len(), "lines printed by the generated program");
        for ((k, a, b), line) in jobs.iter().zip(lines) {
            let q = &primes[*k];
            let (x, y) = (a % q, b % q);
            let h = |n: BigUint| format!("{:x}", n);
            let want = vec![
                h(q.clone()),
                h((&x + &y) % q),
                h((&x + q - &y) % q),
                h(&x * &y % q),
                if x.is_zero() { "-".into() } else { h(inv_ref(&x, q)) },
                h(modpow_ref(&x, &y, q)),
                if a < q { h(a.clone()) } else { "-".into() },
                h(q - 1u32),
                h((&x + &x + &y) % q),
            ]
            .join(" ");
            ensure!(
                line == want,
                "field declared with literal {:?} radix {} (one of {} in the program), operands 0x{:x} and 0x{:x}: prime, sum, difference, product, inverse, power, decoding, -1, iterated sum are\n {}\nexpected\n {}",
                decls[*k].literal(), decls[*k].radix, decls.len(), a, b, line, want
            );
            evals += 1;
            distinct.push(jv::fnv(format!("{:x} {} {:x} {:x}", q, decls[*k].radix, a, b).as_bytes()));
        }
    }
    Ok(Info::new(evals > 0).sub(evals, distinct).label(ps.iter().any(|p| p.len() > 1), "several macro invocations"))
}

fn check_predefined<F: PrimeField>(id: usize) -> Res {
    let p = prime(id);
    ensure!(is_prime(&p), "harness: bad prime");
    canonical(&F::field_prime(), &p, "modulus of the predefined field")?;
    // laws on random elements of this field
    let mut sm = Sm(id as u64);
    let mut distinct = vec![];
    for _ in 0..200 {
        let v: Vec<BigUint> = (0..3).map(|_| El::Rand(sm.next()).value(&p, &[])).collect();
        let f: Vec<F> = v.iter().map(|x| F::from(x.clone())).collect();
        let (a, b, c) = (f[0].clone(), f[1].clone(), f[2].clone());
        ensure!((a.clone() + b.clone()) + c.clone() == a.clone() + (b.clone() + c.clone()), "addition not associative");
        ensure!((a.clone() * b.clone()) * c.clone() == a.clone() * (b.clone() * c.clone()), "multiplication not associative");
        ensure!(
            a.clone() * (b.clone() + c.clone()) == a.clone() * b.clone() + a.clone() * c.clone(),
            "not distributive"
        );
        canonical(&(a.clone() * b.clone()), &(&v[0] * &v[1] % &p), "product")?;
        if !a.is_zero() {
            canonical(&(a.clone() * a.inverse()), &BigUint::one(), "a times its inverse")?;
        }
        distinct.push(jv::fnv(format!("{} {:?}", id, v).as_bytes()));
    }
    Ok(Info::new(true).sub(200, distinct).label(true, "predefined or harness-declared field"))
}

struct M07;
impl Prop for M07 {
    type Case = Fields;
    const ID: &'static str = "M07";
    const RULE: &'static str = "Cases: the 14 predefined and 9 harness-declared fields against primes written down from the standards; and generated Rust programs, compiled and run, that declare random primes of 2..600 bits (some Mersenne primes of up to 2203 bits) in random radixes (2..36, upper/lower case, leading zeros, grouped digits, any visibility, sometimes the same digits in several radixes), several per macro invocation and several invocations per program, first used from several threads, then evaluated on interleaved operands. One evaluation is one operand pair of one field. Oracle: plain integer arithmetic modulo the generated prime.";
    const ASSUMPTIONS: &'static [&'static str] = &["RFC 5114 primes were transcribed correctly (checked against OpenSSL's copies).", "num-bigint's arithmetic on plain integers is right."];
    const SHARDS: usize = 1;
    fn fixed(_: Tier, _: u64) -> Vec<Fields> {
        let d = |bits, radix| Decl { bits, seed: 3, radix, upper: false, zeros: 0, vis: 0, digits: String::new(), groups: false };
        let mut v: Vec<Fields> = (0..FIELDS).map(Fields::Predefined).collect();
        // a single small declaration, and one of each radix
        let all: Vec<Decl> = (2..=36).map(|r| Decl { upper: r % 2 == 0, seed: r as u64, ..d(40 + r as u16, r) }).collect();
        v.push(Fields::Programs(vec![
            vec![vec![d(2, 10)]],
            vec![all[..18].to_vec(), all[18..].to_vec()],
            // the same prime declared twice, in different radixes
            vec![vec![d(64, 10), d(64, 16), d(3, 2)], vec![d(64, 36)]],
            // the same digits in different radixes
            vec![Decl::in_all_radixes("11"), Decl::in_all_radixes("21").split_off(2), Decl::in_all_radixes("101"), Decl::in_all_radixes("1001001")],
            // digits in groups
            vec![vec![Decl { groups: true, ..d(200, 10) }, Decl { groups: true, ..d(500, 16) }, Decl { groups: true, upper: true, ..d(90, 36) }]],
            // long literals
            vec![vec![
                Decl::mersenne(2203, 3),
                Decl::mersenne(1279, 2),
                Decl { upper: true, ..Decl::mersenne(2203, 16) },
                Decl { groups: true, ..Decl::mersenne(2203, 4) },
                Decl { groups: true, ..Decl::mersenne(1279, 36) },
                Decl { zeros: 200, ..Decl::mersenne(607, 7) },
            ]],
        ]));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(2, 60)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Fields> {
        let bits = prop_oneof![2 => 2u16..8, 2 => 2u16..70, 1 => prop_oneof![Just(31u16), Just(32), Just(33), Just(63), Just(64), Just(65), Just(128)], 2 => 64u16..260, 1 => 250u16..600];
        let decl = (bits, any::<u64>(), 2u8..37, any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 0u8..5], 0u8..3)
            .prop_map(|(bits, seed, radix, upper, zeros, vis)| Decl { bits, seed, radix, upper, zeros, vis, digits: String::new(), groups: seed % 5 == 0 });
        let digits = prop::string::string_regex("[0-9]{0,12}[1379]").unwrap();
        let same = (digits, any::<bool>()).prop_map(|(digits, back)| {
            let mut v = Decl::in_all_radixes(&digits);
            if v.is_empty() {
                v = Decl::in_all_radixes("11");
            }
            if back {
                v.reverse();
            }
            v.truncate(8);
            v
        });
        let inv = prop_oneof![4 => prop::collection::vec(decl, 1..9), 1 => same];
        let prog = prop::collection::vec(inv, 1..5);
        prop::collection::vec(prog, 1..9).prop_map(Fields::Programs).boxed()
    }
    fn check(c: &Fields) -> Res {
        match c {
            Fields::Predefined(id) => with_field!(*id, |F| check_predefined::<F>(*id)),
            Fields::Programs(ps) => check_programs(ps),
        }
    }
}

fn main() {
    jv::main(&[
        jv::reg::<M01>(),
        jv::reg::<M02>(),
        jv::reg::<M03>(),
        jv::reg::<M04>(),
        jv::reg::<M05>(),
        jv::reg::<M06>(),
        jv::reg::<M07>(),
    ])
}
