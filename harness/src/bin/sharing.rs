#![recursion_limit = "512"]
use jester_maths::prime::PrimeField;
use jester_sharing::{LinearSharingScheme, ThresholdSecretSharingScheme};
use jv::field::*;
use jv::mpc::*;
use jv::{ensure, ensure_eq, fnv, mix, no_panic, stats, with_field, Info, Prop, Res, rank, Sm, Tier};
use num::Zero;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// Fields with room for at least two parties.
fn share_field() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => prop::sample::select(vec![0usize, 15, 1, 16, 2]),
        2 => prop::sample::select(vec![17usize, 3, 18, 4, 5, 6]),
        3 => prop::sample::select(vec![7usize, 8, 9, 10, 19, 20, 21]),
        1 => 11usize..14,
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------ S01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sharing {
    field: usize,
    n: usize,
    t: usize,
    secret: El,
    seed: u64,
    /// how many shares beyond the threshold take part, and which, per reconstruction
    picks: Vec<(usize, u64)>,
    /// try every subset of at least t shares, ascending and descending
    all: bool,
}

fn check_sharing<F: PrimeField>(c: &Sharing, p: &BigUint) -> Res {
    let (n, t) = shape(c.n, c.t, p);
    let secret = c.secret.value(p, &[]);
    let mut rng = DetRng::new(c.seed);
    let shares: Vec<(usize, F)> =
        <Shamir<F> as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(&mut rng, &F::from(secret.clone()), n, t);
    let plain = uints(&shares);
    ensure_eq!(plain.iter().map(|s| s.0).collect::<Vec<_>>(), (1..=n).collect::<Vec<_>>(), "numbers of the shares (n={}, t={})", n, t);
    let foreign: Vec<(usize, F)> = share_ref(&secret, n, t, p, &mut Sm(mix(c.seed ^ 5)))
        .into_iter()
        .map(|(x, y)| (x, F::from(y)))
        .collect();
    let mut distinct = vec![];
    let mut total = 0u64;
    let mut one = |set: &[usize]| -> Result<(), String> {
        total += 1;
        let take = |s: &[(usize, F)]| set.iter().map(|i| s[*i].clone()).collect::<Vec<_>>();
        for (which, s) in [("generated", &shares), ("reference", &foreign)] {
            let got = no_panic(|| <Shamir<F> as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(&take(s), t).as_uint())
                .map_err(|e| format!("reconstruction from {} shares {:?} (n={}, t={}) panicked: {}", which, numbers(set), n, t, e))?;
            ensure_eq!(hex(&got), hex(&secret), "secret reconstructed from {} shares {:?} (n={}, t={}, field {})", which, numbers(set), n, t, c.field);
        }
        // what somebody else reconstructs from the same shares
        let some: Vec<_> = set[..t].iter().map(|i| plain[*i].clone()).collect();
        ensure_eq!(hex(&interpolate(&some, 0, p)), hex(&secret), "value at zero of the polynomial through shares {:?} (n={}, t={}, field {})", numbers(&set[..t]), n, t, c.field);
        if t < n || set.len() > t {
            distinct.push(fnv(format!("{} {} {} {} {:?}", c.field, n, t, secret, set).as_bytes()));
        }
        Ok(())
    };
    for (extra, order) in &c.picks {
        // interpolation takes quadratically many inversions
        let k = t + extra % (n - t + 1).min(200);
        one(&in_order(*order, n, k))?;
    }
    if c.all {
        for mask in 0u32..1 << n {
            if (mask.count_ones() as usize) < t {
                continue;
            }
            let v: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            one(&v)?;
            one(&v.iter().rev().copied().collect::<Vec<_>>())?;
        }
    }
    Ok(Info::new(!distinct.is_empty())
        .label(t == n, "threshold equals count")
        .label(t < n, "threshold below count")
        .label(small(p).map_or(false, |p| n == p - 1), "as many shares as the field allows")
        .sub(total, distinct))
}

/// Which k of n shares take part, in order.
fn in_order(order: u64, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match order {
        0 => (),
        1 => v.reverse(),
        2 => v.rotate_left(n - k),
        3 => v[..k].reverse(),
        4 => v.rotate_left(1),
        5 => v.sort_by_key(|i| i % 2),
        _ => Sm(order).shuffle(&mut v),
    }
    v.truncate(k);
    v
}

fn numbers(set: &[usize]) -> Vec<usize> {
    set.iter().map(|i| i + 1).collect()
}

struct S01;
impl Prop for S01 {
    type Case = Sharing;
    const ID: &'static str = "S01";
    const RULE: &'static str = "A case shares one secret (field, n, t, secret, generator seed) and reconstructs from subsets of at least t shares in chosen orders, from the library's shares and from reference shares of the same secret; it also interpolates the library's shares independently. One evaluation per (subset, order). Fixed cases: all secrets, counts, thresholds and subsets (ascending and descending) in the 3-, 5- and 7-element fields, samples with the largest counts and thresholds in larger fields. Non-trivial: the subset is not all n=t shares (t < n, or surplus shares); distinct over (field, n, t, secret, subset in order).";
    fn fixed(tier: Tier, seed: u64) -> Vec<Sharing> {
        let mut v = vec![];
        for (f, p) in [(0usize, 3usize), (15, 5), (1, 7)] {
            for n in 2..p {
                for t in 0..n - 1 {
                    for s in 0..p as u64 {
                        v.push(Sharing { field: f, n, t, secret: El::Small(s), seed: mix(seed ^ (s * 100 + t as u64)), picks: vec![], all: true });
                    }
                }
            }
        }
        let mut big = |field: usize, n: usize, t: usize, k: u64| {
            v.push(Sharing {
                field,
                n,
                t: t - 2,
                secret: El::Rand(seed + k),
                seed: seed + k,
                picks: (0..2).map(|i| (mix(k + i) as usize, mix(seed + k * 7 + i))).chain((0..4).map(|i| (0, i))).collect(),
                all: false,
            })
        };
        for (i, t) in [2, 3, 6, 9, 10].iter().enumerate() {
            big(16, 10, *t, i as u64);
        }
        for (i, t) in [2usize, 15, 29, 30].iter().enumerate() {
            big(2, 30, *t, 10 + i as u64);
        }
        for (i, t) in [2usize, 16, 17, 100, 128, 255, 256].iter().enumerate() {
            big(17, 256, *t, 20 + i as u64);
        }
        for f in [3usize, 18, 4, 7, 10, 19, 20, 21] {
            big(f, 70, 65, 40 + f as u64);
            big(f, 40, 33, 80 + f as u64);
        }
        big(18, 300, 3, 200);
        big(3, tier.pick(2000, 8190), 4, 201);
        big(18, tier.pick(5000, 65536), 2, 202);
        big(21, 200, 129, 203);
        big(18, 270, 257, 206);
        big(7, 262, 258, 207);
        big(20, 301, 300, 208);
        big(18, 520, 514, 209);
        big(11, tier.pick(24, 60), tier.pick(20, 40), 204);
        big(13, tier.pick(12, 20), tier.pick(10, 18), 205);
        if tier == Tier::Thorough {
            for t in [64usize, 200, 400] {
                big(20, 500, t, 300 + t as u64);
                big(7, 500, t, 310 + t as u64);
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(6000, 120_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Sharing> {
        let n = prop_oneof![6 => 2usize..9, 2 => 9usize..30, 1 => 30usize..50];
        let t = prop_oneof![4 => 0usize..6, 2 => 0usize..48];
        (share_field(), n, t, el(), any::<u64>(), prop::collection::vec((0usize..50, prop_oneof![2 => any::<u64>(), 1 => 0u64..6]), 1..6))
            .prop_map(|(field, n, t, secret, seed, mut picks)| {
                // inversions are slow in fields of 768 bits and more
                let wide = (11..14).contains(&field);
                if wide {
                    picks.truncate(2);
                }
                Sharing { field, n: if wide { n.min(12) } else { n }, t, secret, seed, picks, all: false }
            })
            .boxed()
    }
    fn check(c: &Sharing) -> Res {
        let p = prime(c.field);
        ensure!(p > BigUint::from(2u32), "no sharing in this field");
        with_field!(c.field, |F| check_sharing::<F>(c, &p))
    }
}

// ------------------------------------------------------------------------------------------------ S02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hiding {
    /// several sharings from one generator: exact degree and value at zero, no repetition
    Degree { field: usize, n: usize, t: usize, secrets: Vec<El>, seed: u64 },
    /// no algebraic relation between the secret and the coefficients, nor between those of successive sharings (large field)
    Relations { field: usize, n: usize, t: usize, seed: u64, pairs: bool, fresh: bool },
    /// joint distribution of the shares of every set of t - 1 parties, in a small field
    Joint { field: usize, n: usize, t: usize, secret: u64, seed: u64, fresh: bool },
    /// coarse distribution in a large field
    Coarse { field: usize, n: usize, t: usize, secret: El, seed: u64, draws: u32 },
    /// a threshold below two, at which every single share would be the secret
    Useless { field: usize, n: usize, t: usize, secret: El, seed: u64 },
}

fn share_them<F: PrimeField>(rng: &mut DetRng, secret: &BigUint, n: usize, t: usize) -> Vec<(usize, BigUint)> {
    let s: Vec<(usize, F)> =
        <Shamir<F> as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(rng, &F::from(secret.clone()), n, t);
    uints(&s)
}

/// Coefficients of the polynomial of degree below t through the first t shares, by solving with divided differences.
fn coefficients(shares: &[(usize, BigUint)], t: usize, p: &BigUint) -> Vec<BigUint> {
    let xs: Vec<usize> = shares[..t].iter().map(|s| s.0).collect();
    let mut d: Vec<BigUint> = shares[..t].iter().map(|s| s.1.clone()).collect();
    for k in 1..t {
        for i in (k..t).rev() {
            let num = (&d[i] + p - &d[i - 1]) % p;
            let den = BigUint::from(xs[i] - xs[i - k]) % p;
            d[i] = num * inv_ref(&den, p) % p;
        }
    }
    let mut c = vec![BigUint::zero(); t];
    for k in (0..t).rev() {
        // c = c * (x - xs[k]) + d[k]
        for i in (0..t).rev() {
            let up = if i > 0 { c[i - 1].clone() } else { d[k].clone() };
            c[i] = (up + p * BigUint::from(xs[k]) - &c[i] * xs[k]) % p;
        }
    }
    c
}

fn check_hiding<F: PrimeField>(c: &Hiding, p: &BigUint) -> Res {
    match c {
        Hiding::Degree { n, t, secrets, seed, field } => {
            let (n, t) = shape(*n, *t, p);
            let mut rng = DetRng::new(*seed);
            let lines = Lines::new(n, t, p);
            let mut seen: BTreeSet<BigUint> = BTreeSet::new();
            for s in secrets {
                let s = s.value(p, &[]);
                let shares = share_them::<F>(&mut rng, &s, n, t);
                let v = lines.open(&shares)?;
                ensure_eq!(hex(&v), hex(&s), "value at zero of the sharing polynomial (n={}, t={}, field {})", n, t, field);
                if p.bits() > 60 {
                    for (k, a) in coefficients(&shares, t, p).into_iter().enumerate().skip(1) {
                        ensure!(!a.is_zero(), "coefficient {} of the sharing polynomial is zero (n={}, t={}, field {})", k, n, t, field);
                        ensure!(seen.insert(a), "a coefficient of the sharing polynomial occurs twice (coefficient {}, n={}, t={}, field {})", k, n, t, field);
                    }
                }
            }
            Ok(Info::new(t > 2 && secrets.len() > 1).label(p.bits() > 60, "large field").label(t < n, "threshold below count"))
        }
        Hiding::Relations { field, n, t, seed, pairs, fresh } => {
            ensure!(p.bits() >= 60, "field too small");
            let (n, t) = shape(*n, *t, p);
            let mut rng = DetRng::new(*seed);
            let vars = if *pairs { 2 * t } else { t };
            let mut secrets = Sm(mix(*seed ^ 17));
            let mut rows = vec![];
            let mut logs = vec![];
            let mut bits = vec![];
            let size = p.bits() as usize;
            let several = (rank::width(vars) + 7).max(if rank::fair_bits(p) && size * vars <= 320 { size * vars + 60 } else { 0 });
            for k in 0..several as u64 {
                if *fresh {
                    rng = DetRng::new(mix(*seed).wrapping_add(k));
                }
                let mut v = vec![];
                for _ in 0..vars / t {
                    let s = El::Rand(secrets.next()).value(p, &[]);
                    let shares = share_them::<F>(&mut rng, &s, n, t);
                    v.extend(coefficients(&shares, t, p));
                }
                if bits.len() < size * vars + 60 {
                    bits.push(v.iter().flat_map(|x| rank::bits(x, size)).collect());
                }
                if rows.len() < rank::width(vars) + 3 {
                    rows.push(rank::features(&v, p));
                }
                if rank::has_log(p) && logs.len() < vars + 7 {
                    logs.extend(rank::logs(&v));
                }
            }
            let name = |i: usize| format!("{}{}", if i >= t { "next " } else { "" }, if i % t == 0 { "secret".to_string() } else { format!("c{}", i % t) });
            let what = || format!("(secret and coefficients of the sharing polynomial, n={}, t={}, field {})", n, t, field);
            if logs.len() == vars + 7 {
                if let Some(r) = rank::relation(logs, &rank::ORDER.into()) {
                    return Err(format!("{} {}", rank::describe_logs(&r, &name), what()));
                }
            }
            if rank::fair_bits(p) && bits.len() == size * vars + 60 {
                if let Some(set) = rank::bit_relation(&bits) {
                    let text: Vec<String> = set.iter().take(8).map(|k| format!("bit {} of {}", k % size, name(k / size))).collect();
                    return Err(format!("the sum of {} {} is constant {}", set.len(), text.join(", "), what()));
                }
            }
            if let Some(r) = rank::relation(rows, p) {
                return Err(format!("secret and coefficients of the sharing polynomial always satisfy {} (n={}, t={}, field {})", rank::describe(&r, vars, &name), n, t, field));
            }
            Ok(Info::new(true).label(true, "relations").label(*pairs, "relations between sharings"))
        }
        Hiding::Joint { n, t, secret, seed, fresh, .. } => {
            let (n, t) = shape(*n, *t, p);
            let q = small(p).ok_or("field too large")?;
            let cells = q.pow(t as u32 - 1);
            ensure!(cells <= 3000, "too many cells");
            let draws = (60 * cells).max(3000);
            let secret = BigUint::from(*secret) % p;
            let mut rng = DetRng::new(*seed);
            let mut all: Vec<Vec<usize>> = vec![];
            for k in 0..draws {
                if *fresh {
                    rng = DetRng::new(mix(*seed).wrapping_add(k as u64));
                }
                let s = share_them::<F>(&mut rng, &secret, n, t);
                let v: Vec<usize> = s.iter().map(|s| low64(&s.1) as usize).collect();
                ensure!(v.iter().all(|x| *x < q), "share out of range");
                all.push(v);
            }
            let mut tests = 0;
            for mask in 0u32..1 << n {
                if mask.count_ones() as usize != t - 1 {
                    continue;
                }
                let set: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
                let mut h = vec![0u64; cells];
                for v in &all {
                    h[set.iter().fold(0, |a, i| a * q + v[*i])] += 1;
                }
                tests += 1;
                if let Some(e) = stats::uniform(&h, &format!("joint distribution of the shares {:?} of secret {} (p={}, n={}, t={})", numbers(&set), secret, q, n, t)) {
                    return Err(e);
                }
            }
            // successive sharings from one generator
            for i in 0..n {
                for (lag, j) in [(1usize, i), (1, (i + 1) % n), (2, i)] {
                    let mut h = vec![0u64; q * q];
                    for k in lag..all.len() {
                        h[all[k][i] * q + all[k - lag][j]] += 1;
                    }
                    tests += 1;
                    if let Some(e) = stats::uniform(&h, &format!("shares {} and {} of two sharings {} apart (p={}, n={}, t={})", i + 1, j + 1, lag, q, n, t)) {
                        return Err(e);
                    }
                }
            }
            Ok(Info::new(true).label(*fresh, "fresh generator per sharing").label(!*fresh, "one generator").label(tests > 5, "several sets"))
        }
        Hiding::Coarse { n, t, secret, seed, draws, .. } => {
            let (n, t) = shape(*n, *t, p);
            let secret = secret.value(p, &[]);
            let mut rng = DetRng::new(*seed);
            let bucket = |v: &BigUint| (low64(&((v * 8u32) / p)) as usize).min(7);
            let low = |v: &BigUint| low64(v) as usize % 8;
            let mut top = vec![vec![0u64; 8]; n];
            let mut bottom = vec![vec![0u64; 8]; n];
            let mut pair = vec![vec![0u64; 64]; n];
            let mut next = vec![vec![0u64; 64]; n];
            let mut before: Option<Vec<usize>> = None;
            for _ in 0..*draws {
                let s = share_them::<F>(&mut rng, &secret, n, t);
                let b: Vec<usize> = s.iter().map(|s| bucket(&s.1)).collect();
                for i in 0..n {
                    top[i][b[i]] += 1;
                    bottom[i][low(&s[i].1)] += 1;
                    pair[i][b[i] * 8 + b[(i + 1) % n]] += 1;
                    if let Some(a) = &before {
                        next[i][b[i] * 8 + a[i]] += 1;
                    }
                }
                before = Some(b);
            }
            for i in 0..n {
                let mut judged = vec![
                    (format!("leading part of share {}", i + 1), &top[i]),
                    (format!("low bits of share {}", i + 1), &bottom[i]),
                    (format!("leading part of share {} in successive sharings", i + 1), &next[i]),
                ];
                if t > 2 {
                    judged.push((format!("leading parts of shares {} and {}", i + 1, (i + 1) % n + 1), &pair[i]));
                }
                for (what, h) in judged {
                    if let Some(e) = stats::uniform(h, &format!("{} (field of {} bits, n={}, t={})", what, p.bits(), n, t)) {
                        return Err(e);
                    }
                }
            }
            Ok(Info::new(true).label(true, "large field, coarse"))
        }
        Hiding::Useless { n, t, secret, seed, field } => {
            let secret = secret.value(p, &[]);
            let t = *t % 2;
            let mut rng = DetRng::new(*seed);
            if let Ok(shares) = no_panic(|| share_them::<F>(&mut rng, &secret, *n, t)) {
                let told = shares.iter().filter(|s| s.1 == secret).count();
                ensure!(shares.is_empty(), "threshold {} was accepted: {} of {} shares are the secret itself (field {})", t, told, shares.len(), field);
            }
            Ok(Info::new(true).label(true, "useless threshold"))
        }
    }
}

struct S02;
impl Prop for S02 {
    type Case = Hiding;
    const ID: &'static str = "S02";
    const RULE: &'static str = "Degree cases share several secrets from one generator and require that all n shares lie on one polynomial of degree below t with the secret at zero, and in large fields that no random coefficient is zero or occurs twice. Relations cases compute the rank of the degree-two monomials (many coefficients: of the linear ones) of secret and coefficients over repeated sharings, or pairs of successive ones, in a large field: it must be full, and so must be, in the 61-bit field, that of their logarithms modulo 1321 (multiplicative relations) and, for few coefficients, that of their bits modulo two. Joint cases draw at least 60 sharings per cell and require (chi-square, false-alarm bound 1e-10 per test) that the joint distribution of every set of t-1 shares is uniform for the fixed secret, and that successive sharings are independent; Coarse cases do the same for leading and low bits in large fields. Useless cases ask for a threshold of zero or one, which must not be answered with shares. Non-trivial: Degree with t > 2 and several secrets, and all other cases.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "distributions are judged by chi-square tests with an explicit false-alarm bound; deviations below their power go unseen",
        "generators are deterministic pseudo-random streams (splitmix64)",
    ];
    fn fixed(tier: Tier, seed: u64) -> Vec<Hiding> {
        let mut v = vec![];
        for (f, p, tmax) in [(0usize, 3usize, 2usize), (15, 5, 4), (1, 7, 4), (16, 11, 3)] {
            for n in [2, 3, 4, p - 1] {
                if n >= p {
                    continue;
                }
                for t in 2..=tmax.min(n) {
                    let secrets: Vec<u64> = if p.pow(t as u32 - 1) > 200 { vec![0, 1, seed % p as u64] } else { (0..p as u64).collect() };
                    for s in secrets {
                        for fresh in [false, true] {
                            if fresh && s > 1 {
                                continue;
                            }
                            v.push(Hiding::Joint { field: f, n, t: t - 2, secret: s, seed: mix(seed ^ (s + 31 * t as u64 + 1000 * n as u64)), fresh });
                        }
                    }
                }
            }
        }
        for s in 0..tier.pick(2, 31) {
            v.push(Hiding::Joint { field: 2, n: 5, t: 1, secret: s, seed: mix(seed ^ s), fresh: false });
        }
        v.push(Hiding::Joint { field: 17, n: 4, t: 0, secret: 5, seed: mix(seed), fresh: false });
        for (i, f) in [3usize, 18, 4, 6, 7, 8, 10, 19, 20, 21, 11, 12, 13].iter().enumerate() {
            for t in [0usize, 1, 3] {
                v.push(Hiding::Coarse {
                    field: *f,
                    n: 4,
                    t: t.min(2),
                    secret: if t == 0 { El::Small(0) } else { El::Rand(seed + i as u64) },
                    seed: mix(seed ^ (i * 10 + t) as u64),
                    draws: tier.pick(2500, 20_000),
                });
            }
        }
        for f in [7usize, 20, 21, 8] {
            for t in 2..tier.pick(34, 60) {
                for pairs in [false, true] {
                    if pairs && t > 17 {
                        continue;
                    }
                    v.push(Hiding::Relations { field: f, n: t + t % 3, t: t - 2, seed: mix(seed ^ t as u64), pairs, fresh: t % 4 == 1 && !pairs });
                }
            }
        }
        for f in [18usize, 7, 8] {
            for t in [66usize, 70, 129, 130, 257, 300] {
                v.push(Hiding::Degree { field: f, n: t + t % 3, t: t - 2, secrets: vec![El::Rand(seed), El::Rand(seed)], seed: seed + t as u64 });
            }
        }
        // a generator that lives long
        for f in [7usize, 21] {
            v.push(Hiding::Degree { field: f, n: 3, t: 1, secrets: (0..1500).map(|i| El::Rand(seed + i)).collect(), seed });
        }
        for f in [17usize, 18, 7, 21] {
            for t in [40usize, 12, 5] {
                v.push(Hiding::Degree { field: f, n: 45, t: t - 2, secrets: vec![El::Rand(seed), El::Rand(seed), El::Small(0)], seed: seed + t as u64 });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(3000, 60_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Hiding> {
        let n = prop_oneof![6 => 2usize..9, 2 => 9usize..24];
        (share_field(), n, 0usize..24, prop::collection::vec(el(), 1..8), any::<u64>())
            .prop_map(|(field, n, t, secrets, seed)| {
                let wide = (60..300).contains(&prime(field).bits());
                if seed % 32 == 1 {
                    return Hiding::Useless { field, n, t, secret: secrets[0].clone(), seed };
                }
                if wide && seed % 4 == 0 {
                    return Hiding::Relations { field, n, t: t % 8, seed, pairs: seed % 8 == 0, fresh: seed % 24 == 4 };
                }
                Hiding::Degree { field, n, t, secrets, seed }
            })
            .boxed()
    }
    fn check(c: &Hiding) -> Res {
        let field = match c {
            Hiding::Degree { field, .. } | Hiding::Relations { field, .. } | Hiding::Joint { field, .. } | Hiding::Coarse { field, .. } | Hiding::Useless { field, .. } => *field,
        };
        let p = prime(field);
        ensure!(p > BigUint::from(2u32), "no sharing in this field");
        with_field!(field, |F| check_hiding::<F>(c, &p))
    }
}

// ------------------------------------------------------------------------------------------------ S03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Linear {
    /// straight-line program of linear instructions on reference sharings
    Program { field: usize, n: usize, t: usize, inputs: Vec<El>, prog: Vec<Ins>, seed: u64 },
    /// shares of different participants; `op`: 0 add, 1 subtract, 2.. sum of `xs.len()` shares
    Mismatch { field: usize, op: u8, xs: Vec<usize>, ys: Vec<El> },
}

fn linear_step<F: PrimeField>(op: &Op<F>, r: &mut Vec<(usize, F)>) -> Result<(), String> {
    let v = match op {
        Op::Add(a, b) => Shamir::<F>::add_shares(&r[*a], &r[*b]),
        Op::Sub(a, b) => Shamir::<F>::sub_shares(&r[*a], &r[*b]),
        Op::AddScalar(a, k) => Shamir::<F>::add_scalar(&r[*a], k),
        Op::SubScalar(a, k) => Shamir::<F>::sub_scalar(&r[*a], k),
        Op::MulScalar(a, k) => Shamir::<F>::multiply_scalar(&r[*a], k),
        Op::Sum(v) => {
            let v: Vec<_> = v.iter().map(|i| r[*i].clone()).collect();
            Shamir::<F>::sum_shares(&v).ok_or("sum of some shares is None")?
        }
        _ => return Err("not a linear instruction".into()),
    };
    r.push(v);
    Ok(())
}

fn check_linear<F: FieldBounds>(c: &Linear, p: &BigUint) -> Res {
    match c {
        Linear::Program { n, t, inputs, prog, seed, field } => {
            let (n, t) = shape(*n, *t, p);
            let inputs = values(inputs, p);
            let ops = resolve::<F>(prog, &inputs, p, |_| BigUint::zero());
            let want = plain(&ops, &inputs, p, |_| BigUint::zero());
            let mut coins = Sm(mix(*seed));
            let mut regs: Vec<Vec<(usize, F)>> = vec![vec![]; n];
            for v in &inputs {
                for (x, y) in share_ref(v, n, t, p, &mut coins) {
                    regs[x - 1].push((x, F::from(y)));
                }
            }
            for r in regs.iter_mut() {
                for op in &ops {
                    linear_step(op, r)?;
                }
            }
            let lines = Lines::new(n, t, p);
            for k in 0..want.len() {
                let shares: Vec<(usize, BigUint)> = regs.iter().map(|r| (r[k].0, r[k].1.as_uint())).collect();
                let what = || if k < inputs.len() { format!("input {}", k) } else { format!("{:?}", ops[k - inputs.len()]) };
                let got = lines.open(&shares).map_err(|e| format!("register {} ({}): {}", k, what(), e))?;
                ensure_eq!(hex(&got), hex(want[k].as_ref().unwrap()), "secret of register {} ({}; n={}, t={}, field {}, inputs {:?})", k, what(), n, t, field, inputs.iter().map(hex).collect::<Vec<_>>());
            }
            let kinds: BTreeSet<_> = ops.iter().map(std::mem::discriminant).map(|d| format!("{:?}", d)).collect();
            Ok(Info::new(kinds.len() >= 2)
                .label(ops.iter().any(|o| matches!(o, Op::Sum(_))), "sum")
                .label(ops.iter().any(|o| matches!(o, Op::Sub(..) | Op::SubScalar(..))), "subtraction")
                .label(t < n, "threshold below count"))
        }
        Linear::Mismatch { op, xs, ys, field } => {
            let ys = values(ys, p);
            let shares: Vec<(usize, F)> =
                xs.iter().enumerate().map(|(i, x)| (*x, F::from(ys.get(i).cloned().unwrap_or_else(BigUint::zero)))).collect();
            if xs.is_empty() {
                ensure!(Shamir::<F>::sum_shares(&shares).is_none(), "the sum of no shares is something");
                return Ok(Info::new(true).label(true, "no shares"));
            }
            let differ = xs.iter().any(|x| *x != xs[0]);
            let pair = |a: usize| shares[a % shares.len()].clone();
            let (differ, r) = match op {
                0 | 1 => {
                    let (a, b) = (pair(0), pair(1));
                    let d = a.0 != b.0;
                    (d, no_panic(|| if *op == 0 { Shamir::<F>::add_shares(&a, &b) } else { Shamir::<F>::sub_shares(&a, &b) }))
                }
                _ => (differ, no_panic(|| Shamir::<F>::sum_shares(&shares).expect("sum of some shares is None"))),
            };
            match r {
                Ok(v) => {
                    ensure!(!differ, "shares of different participants {:?} were combined (operation {}, field {})", xs, op, field);
                    ensure_eq!(v.0, xs[0], "participant of the result");
                }
                Err(e) => ensure!(differ, "combining shares of participant {} panicked: {}", xs[0], e),
            }
            Ok(Info::new(differ).label(differ, "mismatch"))
        }
    }
}

struct S03;
impl Prop for S03 {
    type Case = Linear;
    const ID: &'static str = "S03";
    const RULE: &'static str = "Program cases evaluate a random straight-line program of linear share operations at every participant (on reference sharings) and require every register to be a proper sharing (all n shares canonical, on one polynomial of degree below t) of the value computed on plain integers. Mismatch cases combine shares of equal or different participants and require refusal exactly if they differ; no shares sum to None. Non-trivial: programs with at least two kinds of operation, mismatches that differ (at any position), and the empty sum.";
    fn fixed(tier: Tier, seed: u64) -> Vec<Linear> {
        let mut v = vec![];
        for f in 0..FIELDS {
            if f == 14 {
                continue;
            }
            v.push(Linear::Mismatch { field: f, op: 2, xs: vec![], ys: vec![] });
            for op in 0..3 {
                v.push(Linear::Mismatch { field: f, op, xs: vec![1, 2], ys: vec![El::Small(1), El::Small(1)] });
                v.push(Linear::Mismatch { field: f, op, xs: vec![2, 1], ys: vec![El::Small(0), El::Small(2)] });
            }
            for k in 1..7 {
                let mut xs = vec![3; 7];
                xs[k] = 4;
                v.push(Linear::Mismatch { field: f, op: 2, xs, ys: vec![El::Small(0); 7] });
            }
            // participants whose numbers differ in one bit only, in either order
            for bit in 0..usize::BITS {
                for op in 0..3 {
                    let (a, b) = (5usize, 5usize ^ (1 << bit));
                    for xs in [vec![a, b], vec![b, a]] {
                        v.push(Linear::Mismatch { field: f, op, xs, ys: vec![El::Rand(seed), El::Small(1)] });
                    }
                }
            }
            // one foreign share in long sums
            for (len, at) in [(64usize, 63usize), (65, 33), (100, 1), (257, 256), (300, 150), (1025, 1024)] {
                let mut xs = vec![2; len];
                xs[at] = 1;
                v.push(Linear::Mismatch { field: f, op: 2, xs, ys: vec![El::Small(0); len] });
            }
        }
        // every pair of values, every operation
        for (f, p) in [(0usize, 3u64), (15, 5), (1, 7)] {
            for a in 0..p {
                for b in 0..p {
                    v.push(Linear::Program {
                        field: f,
                        n: 4,
                        t: (a + b) as usize,
                        inputs: vec![El::Small(a), El::Small(b)],
                        prog: vec![
                            Ins::Add(0, 1),
                            Ins::Sub(0, 1),
                            Ins::AddScalar(0, El::Small(b)),
                            Ins::SubScalar(0, El::Small(b)),
                            Ins::MulScalar(0, El::Small(b)),
                            Ins::Sum(vec![0, 1, 0]),
                            Ins::Sum(vec![1]),
                        ],
                        seed: seed + a * 10 + b,
                    });
                }
            }
        }
        for k in [50usize, 129, 200, 257, 300, 513, 1100, tier.pick(5000, 20_000)] {
            for f in [0usize, 17, 7, 13] {
                v.push(Linear::Program { field: f, n: 5, t: 1, inputs: vec![El::Top(0), El::Rand(seed)], prog: vec![Ins::Sum((0..k as u16).map(|i| i % 3 / 2).collect())], seed });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(12_000, 250_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Linear> {
        let n = prop_oneof![6 => 2usize..8, 1 => 8usize..16];
        let program = (share_field(), n, 0usize..16, prop::collection::vec(rel_el(), 1..6), prop::collection::vec(linear_ins(), 1..20), any::<u64>())
            .prop_map(|(field, n, t, inputs, prog, seed)| Linear::Program { field, n, t, inputs, prog, seed });
        let x = prop_oneof![3 => 1usize..4, 1 => 1usize..300, 1 => Just(usize::MAX), 1 => (0u32..usize::BITS, 1usize..4).prop_map(|(b, x)| x ^ (1 << b))];
        // (lists, and mostly equal lists with some foreign shares)
        let xs = prop_oneof![
            2 => prop::collection::vec(x.clone(), 0..8),
            1 => (x.clone(), x, 2usize..40, any::<u64>()).prop_map(|(a, b, len, at)| (0..len).map(|i| if at as usize % len == i { b } else { a }).collect())
        ];
        let mismatch = (share_field(), 0u8..3, xs, prop::collection::vec(el(), 8))
            .prop_map(|(field, op, xs, ys)| Linear::Mismatch { field, op, xs, ys });
        prop_oneof![4 => program, 1 => mismatch].boxed()
    }
    fn check(c: &Linear) -> Res {
        let field = match c {
            Linear::Program { field, .. } | Linear::Mismatch { field, .. } => *field,
        };
        let p = prime(field);
        ensure!(p > BigUint::from(2u32), "no sharing in this field");
        with_field!(field, |F| check_linear::<F>(c, &p))
    }
}

fn main() {
    jv::main(&[jv::reg::<S01>(), jv::reg::<S02>(), jv::reg::<S03>()])
}
