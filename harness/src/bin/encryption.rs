#![recursion_limit = "512"]
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::PrimeField;
use jv::field::*;
use jv::{ensure, ensure_eq, no_panic, stats, with_field, Info, Prop, Res, Sm, Tier};
use num::{One, Zero};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------ E01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dh {
    Exchange { field: usize, generator: El, seeds: Vec<u64>, order: u64 },
    /// distribution and freshness of private keys
    Keys { field: usize, seed: u64, draws: u32 },
}

fn check_exchange<F>(generator: &El, seeds: &[u64], order: u64, p: &BigUint) -> Res
where
    F: PrimeField + DiffieHellmanKeyExchangeScheme<PublicKey = F, PrivateKey = F, SharedKey = F>,
{
    let g = generator.value(p, &[]);
    let gen = F::from(g.clone());
    let n = seeds.len();
    let mut privs: Vec<BigUint> = vec![];
    let mut keys: Vec<(F, F)> = vec![];
    for s in seeds {
        let mut rng = DetRng::new(*s);
        let (a, pubk) = F::generate_asymmetrical_key_pair(&mut rng, &gen);
        let v = a.as_uint();
        ensure!(v < *p, "private key 0x{:x} is not canonical", v);
        ensure_eq!(
            format!("{:x}", pubk.as_uint()),
            format!("{:x}", modpow_ref(&g, &v, p)),
            "public key for private key 0x{:x} and generator 0x{:x}", v, g
        );
        privs.push(v);
        keys.push((a, pubk));
    }
    let mut e = BigUint::one();
    for v in &privs {
        e *= v;
    }
    let want = modpow_ref(&g, &e, p);
    let mut sm = Sm(order);
    for i in 0..n {
        // the value that reaches party i has passed all the others in some order
        let mut path: Vec<usize> = (0..n).filter(|j| *j != i).collect();
        sm.shuffle(&mut path);
        let mut val = keys[path[0]].1.clone();
        for j in &path[1..] {
            val = F::generate_shared_secret(&keys[*j].0, &val);
        }
        let secret = F::generate_shared_secret(&keys[i].0, &val).as_uint();
        ensure_eq!(
            format!("{:x}", secret),
            format!("{:x}", want),
            "secret of party {} of {} (generator 0x{:x}, path {:?})", i, n, g, path
        );
    }
    Ok(Info::new(g > BigUint::one() && !e.is_zero())
        .label(n > 2, "more than two parties")
        .label(p.bits() > 1000, "RFC 5114 group"))
}

fn check_keys<F>(seed: u64, draws: u32, p: &BigUint) -> Res
where
    F: PrimeField + DiffieHellmanKeyExchangeScheme<PublicKey = F, PrivateKey = F, SharedKey = F>,
{
    let mut rng = DetRng::new(seed);
    let g = F::from(BigUint::from(2u32));
    let mut xs = vec![];
    for _ in 0..draws {
        let (a, b) = F::generate_asymmetrical_key_pair(&mut rng, &g);
        let v = a.as_uint();
        ensure!(v < *p, "private key 0x{:x} is not canonical", v);
        if p.bits() < 100 {
            ensure_eq!(b.as_uint(), modpow_ref(&g.as_uint(), &v, p), "public key");
        }
        xs.push(v);
    }
    let bad = |r: Option<String>| r.map_or(Ok(()), Err);
    let low = |v: &BigUint| v.to_bytes_le().iter().take(8).rev().fold(0u64, |a, b| a << 8 | *b as u64);
    let k = low(p) as usize;
    if p.bits() <= 9 {
        let mut h = vec![0u64; k];
        xs.iter().for_each(|x| h[low(x) as usize] += 1);
        bad(stats::uniform(&h, "distribution of private keys"))?;
        if xs.len() >= 60 * k {
            if let Some(i) = h.iter().position(|c| *c == 0) {
                return Err(format!("private key {} is never drawn", i));
            }
        }
        if k <= 31 {
            let mut h = vec![0u64; k * k];
            xs.chunks_exact(2).for_each(|w| h[low(&w[0]) as usize * k + low(&w[1]) as usize] += 1);
            bad(stats::uniform(&h, "joint distribution of successive private keys"))?;
        }
    } else {
        let slices = 32u32;
        let (mut h, mut l) = (vec![0u64; slices as usize], vec![0u64; 32]);
        for x in &xs {
            h[low(&(x * slices / p)) as usize] += 1;
            l[(low(x) & 31) as usize] += 1;
        }
        bad(stats::uniform(&h, "position of private keys within the field"))?;
        bad(stats::uniform(&l, "low bits of private keys"))?;
        if p.bits() >= 61 {
            let mut s = xs.clone();
            s.sort();
            s.dedup();
            ensure!(s.len() == xs.len(), "private keys repeat");
            let rows = xs.windows(4).take(40).map(|w| jv::rank::features(w, p)).collect();
            if let Some(r) = jv::rank::relation(rows, p) {
                return Err(format!("successive private keys always satisfy {}", jv::rank::describe(&r, 4, &|i| format!("x{}", i))));
            }
        }
    }
    Ok(Info::new(true).label(true, "key distribution").sub(
        draws as u64,
        xs.iter().map(|x| jv::fnv(&x.to_bytes_le()) ^ jv::mix(p.bits() as u64)).collect(),
    ))
}

struct E01;
impl Prop for E01 {
    type Case = Dh;
    const ID: &'static str = "E01";
    const RULE: &'static str = "Cases: exchanges of 2..6 parties over the 14 predefined and 9 user-declared groups with boundary-biased generators, one seeded generator per party, and a random route by which the intermediate values reach each party (one evaluation each); plus streams of key pairs for distribution (one evaluation per key pair). Oracle: square-and-multiply of the generator by the product of the private keys; chi-square with false-alarm bound 1e-10. Non-trivial: generator above one and no zero private key / every drawn key.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's *, % on plain integers are right.", "The splitmix64 generator of the harness is uniform."];
    fn fixed(tier: Tier, seed: u64) -> Vec<Dh> {
        let mut v = vec![];
        for field in 0..FIELDS {
            let bits = prime(field).bits();
            let draws = if bits <= 5 { 400_000 } else if bits <= 9 { 60_000 } else if bits < 100 { 20_000 } else if bits < 300 { 3_000 } else if bits < 1100 { 300 } else { 90 };
            for i in 0..tier.pick(2, 20) {
                v.push(Dh::Keys { field, seed: jv::mix(seed + 1000 * i + field as u64), draws });
            }
            for generator in [El::Small(0), El::Small(1), El::Small(2), El::Top(0), El::Rand(5)] {
                v.push(Dh::Exchange { field, generator, seeds: vec![1, 2], order: 0 });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(16_000, 500_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Dh> {
        let f = prop_oneof![300 => 0usize..FIRST_LARGE, 2 => FIRST_LARGE..PREDEFINED, 150 => PREDEFINED..FIELDS];
        (f, el(), prop::collection::vec(any::<u64>(), 2..7), any::<u64>())
            .prop_map(|(field, generator, mut seeds, order)| {
                if prime(field).bits() > 1000 {
                    seeds.truncate(3);
                }
                Dh::Exchange { field, generator, seeds, order }
            })
            .boxed()
    }
    fn check(c: &Dh) -> Res {
        match c {
            Dh::Exchange { field, generator, seeds, order } => {
                with_field!(*field, |F| check_exchange::<F>(generator, seeds, *order, &prime(*field)))
            }
            Dh::Keys { field, seed, draws } => with_field!(*field, |F| check_keys::<F>(*seed, *draws, &prime(*field))),
        }
    }
}

// ------------------------------------------------------------------------------------------------ E02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rsa {
    Key {
        field: usize,
        /// size of the modulus in 1/256 of the field's size, split of the bits between the primes in 1/256
        size: u8,
        split: u8,
        pq: (u8, u8),
        e: El,
        msgs: Vec<El>,
        zeros: u8,
        /// which of the equivalent exponents below the field prime are used for e and d
        #[serde(default)]
        which: (u32, u32),
    },
    /// the integer p + d (plus a multiple of 2^bits) must be refused
    Oversize { field: usize, d: u64, high: Vec<u8> },
}

fn pooled_prime(bits: usize, i: u8) -> BigUint {
    static POOL: Mutex<Option<HashMap<(usize, u8), BigUint>>> = Mutex::new(None);
    let key = (bits, i);
    if let Some(p) = POOL.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).get(&key) {
        return p.clone();
    }
    let p = prime_of(bits, jv::mix(bits as u64 * 256 + i as u64));
    POOL.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).insert(key, p.clone());
    p
}

/// Two different primes whose product is below the field prime `f`.
fn key_primes(f: &BigUint, size: u8, split: u8, pq: (u8, u8)) -> (BigUint, BigUint) {
    let bits = f.bits();
    let mut total = 4 + (bits.saturating_sub(4)) * (size as usize + 1) / 256;
    if bits > 300 {
        // few different sizes, so that the pool is small
        total = [64, 256, bits - 200, bits - 1][size as usize % 4];
    }
    loop {
        let share = if bits > 300 { 128 } else { 64 + split as usize / 2 };
        let b1 = (total * share / 256).max(2);
        let b2 = total.saturating_sub(b1).max(2);
        let (i, j) = if bits > 300 { (pq.0 % 3, 3 + pq.1 % 3) } else { (pq.0 % 32, pq.1 % 32) };
        let (p, q) = (pooled_prime(b1, i), pooled_prime(b2, j));
        let q = if p == q { pooled_prime(b2, j.wrapping_add(77)) } else { q };
        if p != q && &p * &q < *f {
            return (p, q);
        }
        if total <= 4 {
            return (BigUint::from(2u32), BigUint::from(3u32));
        }
        total -= 1;
    }
}

/// Value of a little-endian byte string.
fn le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}

fn check_key<F: PrimeField>(f: &BigUint, size: u8, split: u8, pq: (u8, u8), e: &El, msgs: &[El], zeros: u8, which: (u32, u32)) -> Res {
    type Sys<F> = RSACryptoSystem<F>;
    let (p, q) = key_primes(f, size, split, pq);
    let n = &p * &q;
    let phi = (&p - 1u32) * (&q - 1u32);
    let mut e = e.value(&phi, &[]);
    let one = BigUint::one();
    while gcd_ref(&e, &phi) != one {
        e = (e + 1u32) % &phi;
    }
    let d = if phi.is_one() { BigUint::one() } else { inv_composite(&e, &phi) };
    let e = if e.is_zero() { one.clone() } else { e };
    // exponents are determined modulo lcm(p - 1, q - 1) only
    let lambda = &phi / gcd_ref(&(&p - 1u32), &(&q - 1u32));
    let other = |x: BigUint, w: u32| {
        let least = &x % &lambda;
        let steps = (f - 1u32 - &least) / &lambda;
        match w % 4 {
            0 => x,
            1 if !least.is_zero() => least,
            2 => least + &lambda * &steps,
            _ => {
                let y = least + &lambda * (BigUint::from(w / 4) % (steps + 1u32));
                if y.is_zero() { x } else { y }
            }
        }
    };
    let (e, d) = (other(e, which.0), other(d, which.1));
    let public = RSAPublicKey { e: F::from(e.clone()), n: F::from(n.clone()) };
    let private = RSAPrivateKey { d: F::from(d.clone()), n: F::from(n.clone()) };
    let mut nontrivial = false;
    let mut done: Vec<BigUint> = vec![];
    for m in msgs {
        let m = m.value(&n, &done);
        done.push(m.clone());
        let mut bytes = m.to_bytes_le();
        if m.is_zero() && zeros % 2 == 1 {
            bytes.clear();
        }
        bytes.extend(vec![0u8; zeros as usize % 4]);
        let key = format!("key n=0x{:x} e=0x{:x} d=0x{:x}, message 0x{:x}", n, e, d, m);
        let c = Sys::<F>::encrypt_message(&public, &bytes);
        ensure_eq!(format!("{:x}", le(&c)), format!("{:x}", modpow_ref(&m, &e, &n)), "{}: cipher", key);
        let back = Sys::<F>::decrypt_message(&private, &c);
        ensure_eq!(format!("{:x}", le(&back)), format!("{:x}", m), "{}: decryption of the encryption", key);
        let s = Sys::<F>::decrypt_message(&private, &bytes);
        ensure_eq!(format!("{:x}", le(&s)), format!("{:x}", modpow_ref(&m, &d, &n)), "{}: decryption", key);
        let back = Sys::<F>::encrypt_message(&public, &s);
        ensure_eq!(format!("{:x}", le(&back)), format!("{:x}", m), "{}: encryption of the decryption", key);
        nontrivial |= m > one && e > one;
    }
    Ok(Info::new(nontrivial)
        .label(n.bits() + 1 >= f.bits(), "modulus as large as the field")
        .label(f.bits() > 1000, "RFC 5114 field")
        .label(e >= phi || d >= phi, "exponent of at least phi(n)")
        .label(e.bits() > 64, "large exponent"))
}

fn inv_composite(a: &BigUint, m: &BigUint) -> BigUint {
    // the extended Euclidean algorithm does not need a prime modulus
    inv_ref(a, m)
}

fn check_oversize<F: PrimeField>(f: &BigUint, d: u64, high: &[u8]) -> Res {
    let mut n = f + BigUint::from(d);
    n += BigUint::from_bytes_le(high) << f.bits();
    let bytes = n.to_bytes_le();
    let k = |v: u32| F::from(BigUint::from(v));
    let public = RSAPublicKey { e: k(1), n: F::from(f - 1u32) };
    let private = RSAPrivateKey { d: k(1), n: F::from(f - 1u32) };
    if let Ok(c) = no_panic(|| RSACryptoSystem::<F>::encrypt_message(&public, &bytes)) {
        return Err(format!("message 0x{:x} does not fit the field 0x{:x} but was encrypted to {:?}", n, f, c));
    }
    if let Ok(c) = no_panic(|| RSACryptoSystem::<F>::decrypt_message(&private, &bytes)) {
        return Err(format!("cipher 0x{:x} does not fit the field 0x{:x} but was decrypted to {:?}", n, f, c));
    }
    Ok(Info::new(true).label(true, "oversized"))
}

struct E02;
impl Prop for E02 {
    type Case = Rsa;
    const ID: &'static str = "E02";
    const RULE: &'static str = "Cases: key pairs from generated primes p != q with p*q below the field prime (every size up to the field's own), any exponent coprime to (p-1)(q-1), either exponent replaced by any equivalent one modulo lcm(p-1, q-1) below the field prime, boundary-biased messages below the modulus incl. 0, 1, n-1, multiples of the factors and padded encodings; and oversized byte strings (the prime itself, just above it, longer). All fields with a prime of at least 7. Fixed: every message of the small keys. Oracle: square-and-multiply on plain integers, round trips both ways, panic on oversized input. Non-trivial: message and exponent above one / oversized input.";
    const ASSUMPTIONS: &'static [&'static str] = &["num-bigint's *, % on plain integers are right.", "Results are compared as integers, so surplus zero bytes in an encoding are not judged.", "Inputs between the modulus and the field prime are not judged."];
    fn fixed(_: Tier, _: u64) -> Vec<Rsa> {
        let mut v = vec![];
        for field in [1usize, 2, 16, 17, 3] {
            for size in (0..=255u8).step_by(15) {
                for split in [0u8, 128, 255] {
                    for e in 1..6 {
                        v.push(Rsa::Key { field, size, split, pq: (size % 7, split % 5), e: El::Small(2 * e + 1), msgs: (0..40).map(El::Small).chain((0..10).map(El::Top)).collect(), zeros: 0, which: (0, if e == 1 { 0 } else { e as u32 - 1 }) });
                    }
                }
            }
        }
        for field in 0..FIELDS {
            for d in 0..40 {
                v.push(Rsa::Oversize { field, d, high: vec![] });
            }
            for high in [vec![1u8], vec![0, 1], vec![255; 9], vec![1; 300]] {
                v.push(Rsa::Oversize { field, d: 3, high });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(80_000, 1_500_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Rsa> {
        let f = prop_oneof![400 => 1usize..FIRST_LARGE, 1 => FIRST_LARGE..PREDEFINED, 200 => 16usize..FIELDS];
        let size = prop_oneof![2 => Just(255u8), 3 => any::<u8>()];
        let exponent = prop_oneof![2 => Just(0u32), 1 => Just(1), 1 => Just(2), 2 => any::<u32>()];
        let key = (f, size, any::<u8>(), (any::<u8>(), any::<u8>()), el(), prop::collection::vec(rel_el(), 1..4), 0u8..4, (exponent.clone(), exponent))
            .prop_map(|(field, size, split, pq, e, msgs, zeros, which)| Rsa::Key { field, size, split, pq, e, msgs, zeros, which });
        let over = (0usize..FIELDS, prop_oneof![0u64..200, any::<u64>()], prop::collection::vec(any::<u8>(), 0..12))
            .prop_map(|(field, d, high)| Rsa::Oversize { field, d, high });
        prop_oneof![9 => key, 1 => over].boxed()
    }
    fn check(c: &Rsa) -> Res {
        match c {
            Rsa::Key { field, size, split, pq, e, msgs, zeros, which } => {
                with_field!(*field, |F| check_key::<F>(&prime(*field), *size, *split, *pq, e, msgs, *zeros, *which))
            }
            Rsa::Oversize { field, d, high } => with_field!(*field, |F| check_oversize::<F>(&prime(*field), *d, high)),
        }
    }
}

fn main() {
    jv::main(&[jv::reg::<E01>(), jv::reg::<E02>()])
}
