#![recursion_limit = "512"]
use jester_maths::prime::PrimeField;
use jester_sharing::ThresholdSecretSharingScheme;
use jv::field::*;
use jv::mpc::*;
use jv::{with_net, ensure, ensure_eq, fnv, mix, rank, stats, Info, Prop, Res, Sm, Tier};
use num::{One, Zero};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------------------------------------ networks

fn parties() -> BoxedStrategy<(usize, usize)> {
    (prop_oneof![3 => 2usize..4, 3 => 4usize..7, 1 => 7usize..11], 0usize..10).boxed()
}

/// A program run by several parties over the simulated network.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    field: usize,
    n: usize,
    t: usize,
    /// jointly generated numbers come from a dealer and are never zero (always so in fields where zero is likely)
    dealt: bool,
    odd_triples: bool,
    library: bool,
    sched: Sched,
    seed: u64,
    inputs: Vec<El>,
    prog: Vec<Ins>,
}

impl Job {
    /// some programs start from shares on peculiar polynomials
    fn odd_shares(&self) -> bool {
        !self.library && mix(self.seed ^ 0x0dd) % 3 == 0
    }
}

struct Done {
    kinds: BTreeSet<&'static str>,
    /// plain values of all registers
    values: Vec<BigUint>,
    n: usize,
    t: usize,
    inputs: usize,
}

fn kind<F>(op: &Op<F>) -> &'static str {
    match op {
        Op::Add(..) | Op::Sub(..) | Op::AddScalar(..) | Op::SubScalar(..) | Op::MulScalar(..) | Op::Sum(..) => "linear",
        Op::Mul(..) => "multiply",
        Op::MulBatch(..) => "multiply batch",
        Op::Inv(..) => "invert",
        Op::InvBatch(..) => "invert batch",
        Op::Or1(..) => "or of one",
        Op::Or(..) => "or",
        Op::Select(..) => "select",
        Op::Rand | Op::Rands(_) => "random",
    }
}

fn describe<F: PrimeField>(ops: &[Op<F>], inputs: usize, reg: usize) -> String {
    let mut r = inputs;
    for (i, op) in ops.iter().enumerate() {
        let k = match op {
            Op::MulBatch(v) => v.len(),
            Op::InvBatch(v) => v.len(),
            Op::Rands(k) => *k,
            _ => 1,
        };
        if reg < r + k {
            return if k > 1 { format!("instruction {}: {:?}, element {}", i, op, reg - r) } else { format!("instruction {}: {:?}", i, op) };
        }
        r += k;
    }
    "input".into()
}

fn run_job<F: FieldBounds>(j: &Job, p: &BigUint) -> Result<Done, String> {
    let (n, t) = shape(j.n, j.t, p);
    let dealt = j.dealt || p.bits() < 60;
    let inputs = values(&j.inputs, p);
    ensure!(!inputs.is_empty(), "no inputs");
    let seed = j.seed;
    let ops = resolve::<F>(&j.prog, &inputs, p, |k| program_number(seed, k, p));
    let setup = Setup {
        p: p.clone(),
        n,
        t,
        seed,
        sched: &j.sched,
        odd_triples: j.odd_triples,
        odd_shares: j.odd_shares(),
        dealt,
        ops: ops.clone(),
        library: j.library,
        inputs: inputs.clone(),
        adversary: None,
        party_seeds: vec![],
        threads: false,
        stop_after: None,
    };
    let text = || format!("n={}, t={}, p={}, inputs {:?}, program {:?}, schedule {:?}", n, t, if p.bits() < 70 { p.to_string() } else { format!("field {}", j.field) }, inputs.iter().map(hex).collect::<Vec<_>>(), ops, j.sched);
    let out = run::<F, Party<F>>(setup).map_err(|e| format!("{} ({})", e, text()))?;
    let net = out.net.lock().unwrap();
    let rand = |k: usize| -> BigUint {
        if dealt {
            return program_number(seed, k, p);
        }
        let d = &net.program_rands[0][k];
        d.iter().fold(BigUint::zero(), |a, d| {
            net.contributed[d].iter().fold(a, |a, c| (a + c.as_ref().unwrap_or(&BigUint::zero())) % p)
        })
    };
    let want = plain(&ops, &inputs, p, rand);
    let lines = Lines::new(n, t, p);
    let mut sub = Sm(mix(seed ^ 77));
    let mut vals = vec![];
    for (i, r) in out.regs.iter().enumerate() {
        ensure_eq!(r.len(), want.len(), "number of results of party {} ({})", i + 1, text());
    }
    for (k, want) in want.iter().enumerate() {
        let shares: Vec<(usize, F)> = out.regs.iter().map(|r| r[k].clone()).collect();
        let got = lines
            .open(&uints(&shares))
            .map_err(|e| format!("register {} ({}): {} ({})", k, describe(&ops, inputs.len(), k), e, text()))?;
        if let Some(w) = want {
            ensure_eq!(hex(&got), hex(w), "value of register {} ({}; {})", k, describe(&ops, inputs.len(), k), text());
            if j.library {
                let mut some = shares.clone();
                sub.shuffle(&mut some);
                some.truncate(t + sub.next() as usize % (n - t + 1));
                let v = <Shamir<F> as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(&some, t);
                ensure_eq!(hex(&v.as_uint()), hex(w), "register {} ({}) reconstructed from the shares of parties {:?} ({})", k, describe(&ops, inputs.len(), k), some.iter().map(|s| s.0).collect::<Vec<_>>(), text());
            }
        }
        vals.push(got);
    }
    Ok(Done { kinds: ops.iter().map(kind).collect(), values: vals, n, t, inputs: inputs.len() })
}

fn job(j: &Job) -> Result<Done, String> {
    let p = prime(j.field);
    with_net!(j.field, |F| run_job::<F>(j, &p))
}

fn labels(i: Info, j: &Job, d: &Done) -> Info {
    i.label(d.t < d.n, "threshold below count")
        .label(d.t == d.n, "threshold equals count")
        .label(d.n > 4, "more than four parties")
        .label(j.sched.kind == 3, "lock step")
        .label(matches!(j.sched.kind, 2 | 6), "random schedule")
        .label(matches!(j.sched.kind, 4 | 5), "one party slow or fast")
        .label(j.sched.lazy, "messages sent on first poll")
        .label(j.odd_triples, "extreme triples")
        .label(j.odd_shares(), "peculiar sharings of the inputs")
        .label(!j.dealt && prime(j.field).bits() >= 60, "numbers from the joint protocol")
}

/// A fixed job with some shape derived from `k`.
fn fixed_job(field: usize, k: u64, seed: u64, inputs: Vec<El>, prog: Vec<Ins>) -> Job {
    let r = mix(seed ^ mix(k));
    Job {
        field,
        n: 2 + (r % 5) as usize,
        t: (r >> 8) as usize % 6,
        dealt: true,
        odd_triples: k % 3 == 2,
        library: false,
        sched: Sched { kind: (k % 7) as u8, seed: r, lazy: k % 2 == 1 },
        seed: r,
        inputs,
        prog,
    }
}

fn job_strategy(inputs: BoxedStrategy<Vec<El>>, prog: BoxedStrategy<Vec<Ins>>) -> BoxedStrategy<Job> {
    (net_field(), parties(), any::<(bool, bool)>(), sched(), any::<u64>(), inputs, prog)
        .prop_map(|(field, (n, t), (odd, _), sched, seed, inputs, prog)| Job {
            field,
            n,
            t,
            dealt: true,
            odd_triples: odd && seed % 2 == 0,
            library: false,
            sched,
            seed,
            inputs,
            prog,
        })
        .boxed()
}

fn two(v: &BigUint) -> bool {
    *v > BigUint::one()
}

// ------------------------------------------------------------------------------------------------ S04

/// One instruction over very many elements, in lock step.
fn huge_job(field: usize, seed: u64, ins: Ins) -> Job {
    let mut j = fixed_job(field, 3, seed + 5, (0..7).map(|i| El::Rand(seed * 11 + i)).collect(), vec![ins]);
    (j.n, j.t) = (2, 0);
    j.sched.kind = 3;
    j
}

struct S04;
impl Prop for S04 {
    type Case = Job;
    const ID: &'static str = "S04";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a program of joint multiplications (single and batches of 0 to 12 pairs, also of earlier products) run by n parties over a simulated network with a chosen delivery and polling schedule and dealt triples (uniform or with factors 0, 1, -1). Every register must be a proper sharing (one canonical share per party, all on one polynomial of degree below t) of the plain product. Fixed cases: all operand pairs of the 3-, 5-, 7- and 11-element fields, singly and as one batch, and long batches. Non-trivial: some register holds a value above 1 produced by a multiplication.";
    const ASSUMPTIONS: &'static [&'static str] =
        &["the network delivers every message eventually, unaltered; schedules are sampled, not enumerated"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Job> {
        let mut v = vec![];
        let mut k = 0;
        for (f, p) in [(0usize, 3u64), (15, 5), (1, 7)] {
            for a in 0..p {
                for b in 0..p {
                    k += 1;
                    v.push(fixed_job(f, k, seed, vec![El::Small(a), El::Small(b)], vec![Ins::Mul(0, 1), Ins::MulBatch(vec![(1, 0)]), Ins::MulBatch(vec![])]));
                }
            }
        }
        for (f, p) in [(0usize, 3u64), (15, 5), (1, 7), (16, 11)] {
            for kk in 0..7 {
                let inputs = (0..p).map(El::Small).collect();
                let pairs = (0..p * p).map(|i| ((i / p) as u16, (i % p) as u16)).collect();
                v.push(fixed_job(f, kk, seed + 1, inputs, vec![Ins::MulBatch(pairs)]));
            }
        }
        for f in NET {
            for kk in 0..tier.pick(2, 7) {
                let inputs = (0..6).map(|i| El::Rand(seed + i)).collect();
                let pairs = (0..tier.pick(40, 300)).map(|i| ((i * 5) as u16, (i * 3 + 1) as u16)).collect();
                v.push(fixed_job(f, kk, seed + 2, inputs, vec![Ins::MulBatch(pairs)]));
            }
        }
        // one long batch, at and around powers of two
        for (k, len) in [63usize, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 320, 511, 513, 1025, 1100].into_iter().enumerate() {
            let pairs = (0..len).map(|i| ((i * 7) as u16, (i * 3 + 1) as u16)).collect();
            let mut j = fixed_job(NET[(k + 3) % 11], k as u64, seed + 4, (0..7).map(|i| El::Rand(seed + i)).collect(), vec![Ins::MulBatch(pairs)]);
            j.n = j.n.min(4);
            v.push(j);
        }
        for (f, len) in [(7usize, 2049usize), (6, 4099), (3, 8200), (16, 16_500), (17, 33_000), (6, 66_000)] {
            let pairs = (0..len).map(|i| ((i * 7 + i / 50) as u16, (i * 3 + i / 1000 + 1) as u16)).collect();
            v.push(huge_job(f, seed, Ins::MulBatch(pairs)));
        }
        for f in [17usize, 7, 21] {
            let mut j = fixed_job(f, 2, seed, vec![El::Rand(1), El::Top(0)], vec![Ins::Mul(0, 1), Ins::MulBatch(vec![(0, 0), (1, 1)])]);
            j.n = tier.pick(24, 60);
            j.t = tier.pick(20, 50);
            v.push(j);
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(6000, 150_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Job> {
        let r = any::<u16>;
        let ins = prop_oneof![
            2 => (r(), r()).prop_map(|(a, b)| Ins::Mul(a, b)),
            3 => prop::collection::vec((r(), r()), 0..13).prop_map(Ins::MulBatch),
        ];
        job_strategy(prop::collection::vec(rel_el(), 1..6).boxed(), prop::collection::vec(ins, 1..4).boxed())
    }
    fn check(j: &Job) -> Res {
        let d = job(j)?;
        let i = Info::new(d.values[d.inputs..].iter().any(two));
        Ok(labels(i, j, &d)
            .label(d.kinds.contains("multiply"), "single")
            .label(j.prog.iter().any(|i| matches!(i, Ins::MulBatch(v) if v.is_empty())), "empty batch")
            .label(j.prog.iter().any(|i| matches!(i, Ins::MulBatch(v) if v.len() > 1)), "batch"))
    }
}

// ------------------------------------------------------------------------------------------------ S05

struct S05;
impl Prop for S05 {
    type Case = Job;
    const ID: &'static str = "S05";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a program of joint inversions (single and batches of 0 to 10 elements) of nonzero shared values, run by n parties over a simulated network with a chosen schedule; masks are dealt, uniform and nonzero, triples dealt. Every register must be a proper sharing of the inverse computed with an independent extended Euclidean algorithm. Fixed cases: all nonzero elements of the 3-, 5-, 7- and 11-element fields singly and as one batch, and long batches. Non-trivial: some inverted value is not 1 (its inverse is above 1).";
    const ASSUMPTIONS: &'static [&'static str] =
        &["jointly generated masks are nonzero (as the property grants)", "the network delivers every message eventually, unaltered"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Job> {
        let mut v = vec![];
        let mut k = 0;
        for (f, p) in [(0usize, 3u64), (15, 5), (1, 7), (16, 11)] {
            for a in 1..p {
                k += 1;
                v.push(fixed_job(f, k, seed, vec![El::Small(a)], vec![Ins::Inv(0), Ins::InvBatch(vec![]), Ins::InvBatch(vec![0])]));
            }
            for kk in 0..7 {
                v.push(fixed_job(f, kk, seed + 1, (1..p).map(El::Small).collect(), vec![Ins::InvBatch((0..p as u16 - 1).collect())]));
            }
        }
        for f in NET {
            for kk in 0..tier.pick(2, 7) {
                let inputs = (0..7).map(|i| El::Rand(seed + i)).collect();
                v.push(fixed_job(f, kk, seed + 2, inputs, vec![Ins::InvBatch((0..tier.pick(30, 200)).map(|i| i * 3).collect())]));
            }
        }
        // one long batch, at and around powers of two
        for (k, len) in [63usize, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 320, 511, 513, 1025, 1100].into_iter().enumerate() {
            let values = (0..len).map(|i| i as u16 * 3).collect();
            let mut j = fixed_job(NET[(k + 3) % 11], k as u64, seed + 4, (0..7).map(|i| El::Rand(seed + i)).collect(), vec![Ins::InvBatch(values)]);
            j.n = j.n.min(4);
            v.push(j);
        }
        for (f, len) in [(7usize, 2049usize), (6, 4099), (3, 8200), (16, 16_500), (17, 33_000), (6, 66_000)] {
            v.push(huge_job(f, seed, Ins::InvBatch((0..len).map(|i| (i * 3 + i / 1000) as u16).collect())));
        }
        for f in [17usize, 7, 21] {
            let mut j = fixed_job(f, 2, seed, vec![El::Rand(1), El::Top(0)], vec![Ins::Inv(0), Ins::InvBatch(vec![0, 1])]);
            j.n = tier.pick(20, 50);
            j.t = tier.pick(16, 40);
            v.push(j);
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(4000, 100_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Job> {
        let r = any::<u16>;
        let ins = prop_oneof![
            2 => r().prop_map(Ins::Inv),
            3 => prop::collection::vec(r(), 0..11).prop_map(Ins::InvBatch),
        ];
        job_strategy(prop::collection::vec(rel_el(), 1..6).boxed(), prop::collection::vec(ins, 1..4).boxed())
    }
    fn check(j: &Job) -> Res {
        let d = job(j)?;
        let inverted = d.kinds.contains("invert") || d.kinds.contains("invert batch");
        let i = Info::new(inverted && d.values[d.inputs..].iter().any(two));
        Ok(labels(i, j, &d)
            .label(d.kinds.contains("invert"), "single")
            .label(j.prog.iter().any(|i| matches!(i, Ins::InvBatch(v) if v.is_empty())), "empty batch")
            .label(j.prog.iter().any(|i| matches!(i, Ins::InvBatch(v) if v.len() > 1)), "batch"))
    }
}

// ------------------------------------------------------------------------------------------------ S06

struct S06;
impl Prop for S06 {
    type Case = Job;
    const ID: &'static str = "S06";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a program of joint ORs of 1 to 12 shared bits (l + 1 < p; also of earlier results) and of the single-bit form, run by n parties over a simulated network with a chosen schedule, dealt nonzero masks and dealt triples. Every register must be a proper sharing of the disjunction. Fixed cases: all bit patterns of every admissible length in the 3-, 5- and 7-element fields, of up to 9 bits in the 11-element field, and long vectors (all zero, one bit set, all set). Non-trivial: a vector of at least two bits.";
    const ASSUMPTIONS: &'static [&'static str] =
        &["jointly generated masks are nonzero (as the property grants)", "the network delivers every message eventually, unaltered"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Job> {
        let mut v = vec![];
        let mut k = 0;
        for (f, p) in [(0usize, 3usize), (15, 5), (1, 7), (16, 11)] {
            for l in 1..=p - 2 {
                if l > 6 && tier == Tier::Quick {
                    continue;
                }
                for pattern in 0u64..1 << l {
                    k += 1;
                    let bits = (0..l).map(|i| El::Small(pattern >> i & 1)).collect();
                    let mut prog = vec![Ins::Or((0..l as u16).collect())];
                    if l == 1 {
                        prog.push(Ins::Or1(0));
                    }
                    v.push(fixed_job(f, k, seed, bits, prog));
                }
            }
        }
        // all admissible lengths of the 11-element field and long vectors, few patterns
        let mut long = vec![(16usize, 7usize), (16, 8), (16, 9), (17, 20), (7, 17), (21, 13), (11, 8), (17, 131), (3, 260)];
        if tier == Tier::Thorough {
            long.extend([(17, 60), (7, 40), (21, 33), (11, 20), (17, 255)]);
        }
        for (f, l) in long {
            for one in [None, Some(0), Some(l - 1), Some(l / 2), Some(l)] {
                if l > 200 && one != Some(l) || l > 100 && one.map_or(false, |o| o > 0 && o < l) {
                    continue;
                }
                k += 1;
                let bits = (0..l).map(|i| El::Small((one == Some(i) || one == Some(l)) as u64)).collect();
                let mut j = fixed_job(f, k, seed, bits, vec![Ins::Or((0..l as u16).collect())]);
                j.n = j.n.min(if l > 200 { 2 } else { 3 });
                v.push(j);
            }
        }
        // every length up to a bound, with no, one, three and all bits set
        for l in 1..=tier.pick(68usize, 131) {
            for set in [0, 1, 3, l] {
                if l > 40 && set == 3 {
                    continue;
                }
                k += 1;
                let bits = (0..l).map(|i| El::Small((i >= l - set.min(l)) as u64)).collect();
                let mut j = fixed_job(if l % 2 == 0 { 7 } else { 17 }, k, seed, bits, vec![Ins::Or((0..l as u16).collect())]);
                j.n = 2;
                j.t = 0;
                v.push(j);
            }
        }
        // every number of set bits of longer vectors
        for (f, l) in tier.pick(vec![(17usize, 30u16), (7, 25)], vec![(17, 70), (7, 50), (21, 40), (11, 24)]) {
            for set in 0..=l as usize {
                k += 1;
                let start = mix(seed ^ k) as usize;
                let mut bits = vec![El::Small(0); l as usize];
                for i in 0..set {
                    bits[(start + i) % l as usize] = El::Small(1);
                }
                let mut j = fixed_job(f, k, seed, bits, vec![Ins::Or((0..l).collect())]);
                j.n = 2;
                j.t = 0;
                v.push(j);
            }
        }
        for f in [17usize, 7] {
            let mut j = fixed_job(f, 2, seed, vec![El::Small(0), El::Small(1)], vec![Ins::Or(vec![0, 1]), Ins::Or(vec![0, 0, 0])]);
            j.n = tier.pick(12, 30);
            j.t = tier.pick(9, 24);
            v.push(j);
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(2500, 60_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Job> {
        let r = any::<u16>;
        let ins = prop_oneof![
            1 => r().prop_map(Ins::Or1),
            2 => prop::collection::vec(0u16..3, 1..9).prop_map(Ins::Or),
            4 => prop::collection::vec(r(), 1..9).prop_map(Ins::Or),
            1 => prop::collection::vec(r(), 9..13).prop_map(Ins::Or),
        ];
        let bit = prop_oneof![3 => Just(El::Small(0)), 1 => Just(El::Small(1))];
        job_strategy(prop::collection::vec(bit, 1..8).boxed(), prop::collection::vec(ins, 1..3).boxed())
    }
    fn check(j: &Job) -> Res {
        let d = job(j)?;
        let l = j.prog.iter().map(|i| if let Ins::Or(v) = i { v.len() } else { 0 }).max().unwrap_or(0);
        let i = Info::new(d.kinds.contains("or") && l >= 2);
        Ok(labels(i, j, &d)
            .label(d.values[d.inputs..].iter().any(|v| v.is_zero()), "result 0")
            .label(d.values[d.inputs..].iter().any(|v| v.is_one()), "result 1")
            .label(l > 6, "more than six bits")
            .label(d.kinds.contains("or of one"), "single bit"))
    }
}

// ------------------------------------------------------------------------------------------------ S07

struct S07;
impl Prop for S07 {
    type Case = Job;
    const ID: &'static str = "S07";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a program of joint selections between shared values by shared condition bits (also between earlier results), run by n parties over a simulated network with a chosen schedule. Every register must be a proper sharing of the branch the condition names. Fixed cases: all conditions and operand pairs of the 3-, 5- and 7-element fields. Non-trivial: some selection is made between two different values (checked on the first instruction's operands).";
    const ASSUMPTIONS: &'static [&'static str] = &["the network delivers every message eventually, unaltered"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Job> {
        let mut v = vec![];
        let mut k = 0;
        for (f, p) in [(0usize, 3u64), (15, 5), (1, 7)] {
            for a in 0..p {
                for b in 0..p {
                    for c in 0..2 {
                        k += 1;
                        // registers 0..3; the condition is picked among the bits, the first of which is register 0
                        v.push(fixed_job(f, k, seed, vec![El::Small(c), El::Small(a), El::Small(b)], vec![Ins::Select(0, 1, 2)]));
                    }
                }
            }
        }
        for f in NET {
            for c in 0..2 {
                k += 1;
                v.push(fixed_job(f, k, seed, vec![El::Small(c), El::Top(0), El::Rand(seed)], vec![Ins::Select(0, 1, 2), Ins::Select(0, 2, 1)]));
                if f == 17 || f == 7 {
                    let mut j = fixed_job(f, k, seed, vec![El::Small(c), El::Top(0), El::Rand(seed)], vec![Ins::Select(0, 1, 2)]);
                    j.n = tier.pick(24, 60);
                    j.t = tier.pick(20, 50);
                    v.push(j);
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(20_000, 150_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Job> {
        let r = any::<u16>;
        let ins = (r(), r(), r()).prop_map(|(c, a, b)| Ins::Select(c, a, b));
        let inputs = (prop::collection::vec((0u64..2).prop_map(El::Small), 1..4), prop::collection::vec(rel_el(), 0..5)).prop_map(|(mut a, b)| {
            a.extend(b);
            a
        });
        job_strategy(inputs.boxed(), prop::collection::vec(ins, 1..5).boxed())
    }
    fn check(j: &Job) -> Res {
        let d = job(j)?;
        let differ = j.prog.iter().take(1).any(|i| match i {
            Ins::Select(_, a, b) => d.values[*a as usize % d.inputs] != d.values[*b as usize % d.inputs],
            _ => false,
        });
        Ok(labels(Info::new(differ), j, &d))
    }
}

// ------------------------------------------------------------------------------------------------ S08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Joint {
    /// shares, sums and sources of the contributions. Parties from `honest` on contribute `values`.
    Exact { field: usize, n: usize, t: usize, sched: Sched, seed: u64, calls: Vec<u8>, honest: usize, values: Vec<El>, library: bool },
    /// distribution over many numbers, buckets of the leading part in large fields
    Uniform { field: usize, n: usize, honest: usize, draws: u32, seed: u64 },
}

struct Drawn {
    /// per number, per party
    contributed: Vec<Vec<BigUint>>,
    numbers: Vec<BigUint>,
}

fn draw<F: FieldBounds>(
    p: &BigUint,
    (n, t): (usize, usize),
    sched: &Sched,
    seed: u64,
    party_seeds: Vec<u64>,
    calls: &[u8],
    adversary: Option<(usize, Vec<BigUint>)>,
    library: bool,
) -> Result<Drawn, String> {
    let ops: Vec<Op<F>> = calls.iter().map(|k| if *k == 1 { Op::Rand } else { Op::Rands(*k as usize) }).collect();
    let total: usize = calls.iter().map(|k| *k as usize).sum();
    let adversary = adversary.map(|(first, v)| (first, (0..total).map(|i| v[i % v.len()].clone()).collect::<Vec<_>>()));
    let honest = adversary.as_ref().map_or(n, |a| a.0);
    let out = run::<F, Party<F>>(Setup {
        dealt: false,
        p: p.clone(),
        n,
        t,
        seed,
        sched,
        odd_triples: false,
        odd_shares: false,
        ops,
        library,
        inputs: vec![],
        adversary: adversary.clone(),
        party_seeds,
        threads: false,
        stop_after: None,
    })?;
    let net = out.net.lock().unwrap();
    ensure!(net.opened.is_empty(), "generating random numbers opened {} values", net.opened.len());
    let mut contributed = vec![vec![]; total];
    for party in 0..n {
        let d = &net.program_rands[party];
        ensure_eq!(d.len(), total, "numbers asked for by party {}", party + 1);
        for k in 0..total {
            ensure_eq!(d[k].len(), 1, "contributions of party {} to one number", party + 1);
            let c = net.contributed[&d[k][0]][party].clone().ok_or("no contribution")?;
            ensure!(c < *p, "contribution of party {} is not canonical", party + 1);
            if party >= honest {
                ensure_eq!(c, adversary.as_ref().unwrap().1[k], "harness: contribution of the adversary");
            }
            contributed[k].push(c);
        }
    }
    let lines = Lines::new(n, t, p);
    let mut numbers = vec![];
    for k in 0..total {
        let shares: Vec<(usize, BigUint)> = out.regs.iter().map(|r| (r[k].0, r[k].1.as_uint())).collect();
        let got = lines.open(&shares).map_err(|e| format!("number {}: {}", k, e))?;
        let want = contributed[k].iter().fold(BigUint::zero(), |a, c| (a + c) % p);
        ensure_eq!(hex(&got), hex(&want), "number {} against the sum of the contributions {:?}", k, contributed[k].iter().map(hex).collect::<Vec<_>>());
        numbers.push(got);
    }
    Ok(Drawn { contributed, numbers })
}

fn check_joint<F: FieldBounds>(c: &Joint, p: &BigUint) -> Res {
    match c {
        Joint::Exact { n, t, sched, seed, calls, honest, values: v, library, field } => {
            let (n, t) = shape(*n, *t, p);
            let honest = 1 + honest % n;
            let adversary = if honest < n { Some((honest, if v.is_empty() { vec![BigUint::zero()] } else { values(v, p) })) } else { None };
            let what = |e: String| format!("{} (n={}, t={}, field {}, {} honest parties, calls {:?}, schedule {:?})", e, n, t, field, honest, calls, sched);
            let seeds: Vec<u64> = (0..n as u64).map(|i| mix(seed ^ (i + 1))).collect();
            let a = draw::<F>(p, (n, t), sched, *seed, seeds.clone(), calls, adversary.clone(), *library).map_err(what)?;
            let large = p.bits() >= 60;
            if large {
                let mut seen = BTreeSet::new();
                for (k, c) in a.contributed.iter().enumerate() {
                    for i in 0..honest {
                        ensure!(seen.insert(&c[i]), "the contribution of party {} to number {} has been contributed before {}", i + 1, k, what(String::new()));
                    }
                }
            }
            let several: usize = calls.iter().map(|k| *k as usize).sum();
            if large && several > 1 {
                // no relation between the contributions of a party to successive numbers
                let vars = several.min(8);
                let mut rows: Vec<Vec<Vec<BigUint>>> = vec![vec![]; honest];
                let mut logs = rows.clone();
                for r in 0..vars as u64 + 6 {
                    let seeds = (0..n as u64).map(|i| mix(seed ^ mix(1000 * r + i + 7))).collect();
                    let d = draw::<F>(p, (n, t), sched, mix(*seed ^ r), seeds, calls, adversary.clone(), *library).map_err(what)?;
                    for i in 0..honest {
                        let mut row = vec![BigUint::one()];
                        row.extend(d.contributed[several - vars..].iter().map(|c| c[i].clone()));
                        if rank::has_log(p) {
                            logs[i].extend(rank::logs(&row[1..]));
                        }
                        rows[i].push(row);
                    }
                }
                for (i, r) in logs.into_iter().enumerate().filter(|(_, r)| r.len() == vars + 6) {
                    if let Some(rel) = rank::relation(r, &rank::ORDER.into()) {
                        return Err(format!("for successive contributions of party {}, {}{}", i + 1, rank::describe_logs(&rel, &|k| format!("c{}", k)), what(String::new())));
                    }
                }
                for (i, r) in rows.into_iter().enumerate() {
                    if let Some(rel) = rank::relation(r, p) {
                        return Err(format!("successive contributions of party {} always satisfy {}{}", i + 1, rank::describe(&rel, 9.max(vars), &|k| format!("c{}", k)), what(String::new())));
                    }
                }
            }
            if large && several > 1 && rank::fair_bits(p) && seed % 4 == 0 {
                // nor between their bits
                let size = p.bits() as usize;
                let mut rows: Vec<Vec<Vec<bool>>> = vec![vec![]; honest];
                for r in 0..2 * size as u64 + 60 {
                    let seeds = (0..n as u64).map(|i| mix(seed ^ mix(1000 * r + i + 13))).collect();
                    let d = draw::<F>(p, (n, t), sched, mix(*seed ^ r), seeds, &[2], adversary.clone(), *library).map_err(what)?;
                    for i in 0..honest {
                        rows[i].push(d.contributed.iter().flat_map(|c| rank::bits(&c[i], size)).collect());
                    }
                }
                for (i, r) in rows.into_iter().enumerate() {
                    if let Some(set) = rank::bit_relation(&r) {
                        let text: Vec<String> = set.iter().take(8).map(|k| format!("bit {} of number {}", k % size, k / size)).collect();
                        return Err(format!("the sum of {} {} of successive contributions of party {} is constant{}", set.len(), text.join(", "), i + 1, what(String::new())));
                    }
                }
            }
            // everybody but one party starts from another generator, in another order: that party contributes the same
            let keep = (*seed % honest as u64) as usize;
            let other: Vec<u64> = (0..n).map(|i| if i == keep { seeds[i] } else { mix(seeds[i] ^ 99) }).collect();
            let sched2 = Sched { kind: (sched.kind + 2) % 7, seed: !sched.seed, lazy: !sched.lazy };
            let b = draw::<F>(p, (n, t), &sched2, mix(*seed), other, calls, adversary, *library).map_err(what)?;
            for (k, (x, y)) in a.contributed.iter().zip(&b.contributed).enumerate() {
                ensure_eq!(hex(&x[keep]), hex(&y[keep]), "contribution of party {} to number {} when only the other parties' generators change{}", keep + 1, k, what(String::new()));
                for i in (0..honest).filter(|i| *i != keep && large) {
                    ensure!(x[i] != y[i], "the contribution of party {} to number {} does not depend on its generator{}", i + 1, k, what(String::new()));
                }
            }
            Ok(Info::new(n > 2 || calls.len() > 1)
                .label(honest < n, "with an adversary")
                .label(calls.iter().any(|k| *k != 1), "several at once")
                .label(t < n, "threshold below count")
                .label(large, "large field"))
        }
        Joint::Uniform { n, honest, draws, seed, .. } => {
            let (n, t) = shape(*n, 0, p);
            let honest = 1 + honest % n;
            let adversary = if honest < n { Some((honest, vec![BigUint::one() % p, BigUint::zero()])) } else { None };
            let sched = Sched { kind: 2, seed: *seed, lazy: false };
            let mut all: Vec<Vec<usize>> = vec![];
            let (q, index): (usize, Box<dyn Fn(&BigUint) -> usize>) = match small(p) {
                Some(q) if q <= 31 => (q, Box::new(|v| low64(v) as usize)),
                _ => (8, Box::new(|v| (low64(&((v * 8u32) / p)) as usize).min(7))),
            };
            let low = |v: &BigUint| low64(v) as usize % 8;
            let mut bits = vec![vec![0u64; 8]; n + 1];
            let per_run = 100;
            for r in 0..draws / per_run {
                // one generator per party and run
                let seeds: Vec<u64> = (0..n as u64).map(|i| mix(seed ^ ((r as u64) << 20) ^ (i + 1))).collect();
                let calls: Vec<u8> = (0..per_run / 4).flat_map(|_| [1u8, 3]).collect();
                let d = draw::<F>(p, (n, t), &sched, mix(*seed + r as u64), seeds, &calls, adversary.clone(), false)?;
                for (c, s) in d.contributed.iter().zip(&d.numbers) {
                    for (i, v) in c.iter().chain([s]).enumerate() {
                        bits[i][low(v)] += 1;
                    }
                    all.push(c.iter().chain([s]).map(&index).collect());
                }
            }
            let judge = |what: String, h: &[u64]| stats::uniform(h, &format!("{} ({} parties, {} honest, field of {} bits)", what, n, honest, p.bits())).map_or(Ok(()), Err);
            let name = |i: usize| if i == n { "the number".to_string() } else { format!("the contribution of party {}", i + 1) };
            let who: Vec<usize> = (0..honest).chain([n]).collect();
            for &i in &who {
                let mut h = vec![0u64; q];
                all.iter().for_each(|v| h[v[i]] += 1);
                judge(name(i), &h)?;
                if p.bits() >= 60 {
                    judge(format!("low bits of {}", name(i)), &bits[i])?;
                }
                for lag in [1usize, 2, 4] {
                    let mut h = vec![0u64; q * q];
                    (lag..all.len()).for_each(|k| h[all[k][i] * q + all[k - lag][i]] += 1);
                    judge(format!("{} and the one {} before", name(i), lag), &h)?;
                }
                for &j in who.iter().filter(|j| **j > i && (n > 1)) {
                    if j == n && honest == 1 {
                        continue; // the number is then a function of the contribution
                    }
                    let mut h = vec![0u64; q * q];
                    all.iter().for_each(|v| h[v[i] * q + v[j]] += 1);
                    judge(format!("{} and {}", name(i), name(j)), &h)?;
                }
            }
            Ok(Info::new(true).label(true, "distribution"))
        }
    }
}

struct S08;
impl Prop for S08 {
    type Case = Joint;
    const ID: &'static str = "S08";
    const PROCESSES: bool = true;
    const RULE: &'static str = "Exact cases run n parties that generate numbers with the library's sum protocol (singly and several at once) on a simulated network, some of them replaced by parties contributing chosen values; shares must form a proper sharing of the sum of exactly one contribution per party and number, contributions must not repeat (large fields), and after restarting the others with different generators and another schedule a party's contributions must be unchanged while the others' change. Uniform cases judge (chi-square, bound 1e-10 per test) contributions, numbers, successive numbers and pairs of parties. Non-trivial: more than two parties or several calls, and all distribution cases.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "generators are deterministic pseudo-random streams (splitmix64), different for every party",
        "distributions are judged by chi-square tests with an explicit false-alarm bound",
    ];
    fn fixed(tier: Tier, seed: u64) -> Vec<Joint> {
        let mut v = vec![];
        for f in NET {
            for (n, honest) in [(2usize, 1usize), (2, 0), (3, 2), (4, 1)] {
                v.push(Joint::Uniform { field: f, n, honest, draws: tier.pick(if f == 11 { 2000 } else { 6000 }, 60_000), seed: mix(seed ^ (f * 100 + n * 10 + honest) as u64) });
            }
            for n in [2usize, 3, 9] {
                v.push(Joint::Exact { field: f, n, t: n / 2, sched: Sched { kind: 6, seed, lazy: n % 2 == 0 }, seed: seed + n as u64, calls: vec![1, 2, 1, 0, 5], honest: n - 1, values: vec![], library: n == 3 });
            }
        }
        for f in [17usize, 7] {
            let n = tier.pick(20, 60);
            v.push(Joint::Exact { field: f, n, t: n / 2, sched: Sched { kind: 2, seed, lazy: false }, seed, calls: vec![1, 2], honest: n - 1, values: vec![], library: false });
        }
        for n in tier.pick(vec![40usize, 70, 140, 270], vec![40, 70, 140, 270, 520]) {
            v.push(Joint::Exact { field: [17, 7][n / 70 % 2], n, t: 2 + n % 3, sched: Sched { kind: (n % 7) as u8, seed, lazy: n > 100 }, seed, calls: vec![1], honest: n - 1, values: vec![], library: false });
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(5000, 100_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Joint> {
        let calls = prop::collection::vec(prop_oneof![2 => Just(1u8), 1 => 0u8..6], 1..6);
        (net_field(), parties(), sched(), any::<u64>(), calls, 0usize..12, prop::collection::vec(rel_el(), 0..4), any::<bool>())
            .prop_map(|(field, (n, t), sched, seed, calls, honest, values, library)| Joint::Exact { field, n, t, sched, seed, calls, honest, values, library })
            .boxed()
    }
    fn check(c: &Joint) -> Res {
        let field = match c {
            Joint::Exact { field, .. } | Joint::Uniform { field, .. } => *field,
        };
        let p = prime(field);
        with_net!(field, |F| check_joint::<F>(c, &p))
    }
}

// ------------------------------------------------------------------------------------------------ S09

/// What is computed; operands are consecutive inputs.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Shape {
    Mul,
    MulBatch(usize),
    Inv,
    InvBatch(usize),
    Or1,
    Or(usize),
    Select,
    /// the same multiplication, or inversion, or OR, twice
    Twice(u8),
    /// the same many times
    Many(u8, usize),
}

impl Shape {
    /// number of inputs, and what they may be: 0 anything, 1 nonzero, 2 bit
    fn inputs(&self) -> Vec<u8> {
        match self {
            Shape::Mul => vec![0; 2],
            Shape::MulBatch(k) => vec![0; 2 * k],
            Shape::Inv => vec![1],
            Shape::InvBatch(k) => vec![1; *k],
            Shape::Or1 => vec![2],
            Shape::Or(k) => vec![2; *k],
            Shape::Select => vec![2, 0, 0],
            Shape::Twice(0) => vec![0; 2],
            Shape::Twice(1) => vec![1; 2],
            Shape::Twice(_) => vec![2; 2],
            Shape::Many(k, _) => Shape::Twice(*k).inputs(),
        }
    }
    fn ops<F>(&self) -> Vec<Op<F>> {
        match self {
            Shape::Mul => vec![Op::Mul(0, 1)],
            Shape::MulBatch(k) => vec![Op::MulBatch((0..*k).map(|i| (2 * i, 2 * i + 1)).collect())],
            Shape::Inv => vec![Op::Inv(0)],
            Shape::InvBatch(k) => vec![Op::InvBatch((0..*k).collect())],
            Shape::Or1 => vec![Op::Or1(0)],
            Shape::Or(k) => vec![Op::Or((0..*k).collect())],
            Shape::Select => vec![Op::Select(0, 1, 2)],
            Shape::Twice(0) => vec![Op::Mul(0, 1), Op::Mul(0, 1)],
            Shape::Twice(1) => vec![Op::InvBatch(vec![0, 1]), Op::InvBatch(vec![0, 1])],
            Shape::Twice(_) => vec![Op::Or(vec![0, 1]), Op::Or(vec![0, 1])],
            Shape::Many(k, times) => (0..*times).map(|_| Shape::Twice(*k).ops().remove(0)).collect(),
        }
    }
    fn fit(&self, v: &[u64], p: u64) -> Vec<u64> {
        self.inputs()
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let x = v.get(i % v.len().max(1)).copied().unwrap_or(0);
                match k {
                    0 => x % p,
                    1 => 1 + x % (p - 1),
                    _ => x % 2,
                }
            })
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mask {
    /// the opened values are distributed alike for the inputs `a` and `b`
    Compare { field: usize, n: usize, t: usize, shape: Shape, a: Vec<u64>, b: Vec<u64>, seed: u64, runs: u32 },
    /// with all operands equal, no two opened values agree (large field)
    Distinct { field: usize, n: usize, t: usize, shape: Shape, value: u64, seed: u64, dealt: bool, sched: Sched },
    /// the opened values satisfy the same algebraic relations for the inputs `a` and `b` (large field)
    Relations { field: usize, n: usize, t: usize, shape: Shape, a: Vec<u64>, b: Vec<u64>, seed: u64, dealt: bool, sched: Sched },
}

fn openings<F: FieldBounds>(
    p: &BigUint,
    (n, t): (usize, usize),
    shape: &Shape,
    inputs: &[u64],
    seed: u64,
    dealt: bool,
    sched: &Sched,
) -> Result<Vec<BigUint>, String> {
    let setup = Setup {
        p: p.clone(),
        n,
        t,
        seed,
        sched,
        odd_triples: false,
        odd_shares: false,
        dealt,
        ops: shape.ops::<F>(),
        library: false,
        inputs: inputs.iter().map(|v| BigUint::from(*v)).collect(),
        adversary: None,
        party_seeds: vec![],
        threads: false,
        stop_after: None,
    };
    let out = run::<F, Party<F>>(setup)?;
    let v = out.net.lock().unwrap().opened.values().cloned().collect();
    Ok(v)
}

fn check_mask<F: FieldBounds>(c: &Mask, p: &BigUint) -> Res {
    match c {
        Mask::Compare { n, t, shape: s, a, b, seed, runs, .. } => {
            let q = small(p).ok_or("field too large")?;
            ensure!(q <= 11, "field too large");
            let (n, t) = shape(*n, *t, p);
            let ab = [s.fit(a, q as u64), s.fit(b, q as u64)];
            let mut logs: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
            for r in 0..*runs as u64 {
                for w in 0..2 {
                    let seed = mix(*seed ^ mix(2 * r + w as u64));
                    let sched = Sched { kind: 0, seed, lazy: false };
                    // on failure of the computation itself, other properties are at stake
                    let v = openings::<F>(p, (n, t), s, &ab[w], seed, true, &sched)?;
                    logs[w].push(v.iter().map(|v| low64(v) as u8).collect());
                }
            }
            let m = logs[0][0].len();
            ensure!(m > 0, "nothing was opened by {:?}", s);
            for w in 0..2 {
                ensure!(logs[w].iter().all(|l| l.len() == m), "the number of opened values depends on the inputs or on chance ({:?})", s);
            }
            let mut pick = Sm(mix(seed ^ 3));
            let mut sets: Vec<Vec<usize>> = (0..m).map(|i| vec![i]).collect();
            let pairs = m * (m - 1) / 2;
            if pairs <= 800 {
                sets.extend((0..m).flat_map(|i| (i + 1..m).map(move |j| vec![i, j])));
            } else {
                sets.extend((1..m).map(|i| vec![i - 1, i]));
                sets.extend((0..600).map(|_| vec![pick.next() as usize % m, pick.next() as usize % m]).filter(|v| v[0] != v[1]));
            }
            let triples = q.pow(3) * 30 <= *runs as usize && m >= 3;
            if triples {
                for _ in 0..300.min(m * m) {
                    let mut v: Vec<usize> = (0..3).map(|_| pick.next() as usize % m).collect();
                    v.sort_unstable();
                    v.dedup();
                    if v.len() == 3 {
                        sets.push(v);
                    }
                }
            }
            let mut tests = vec![];
            for set in sets {
                let mut h = [vec![0u64; q.pow(set.len() as u32)], vec![0u64; q.pow(set.len() as u32)]];
                for w in 0..2 {
                    for l in &logs[w] {
                        h[w][set.iter().fold(0, |acc, i| acc * q + l[*i] as usize)] += 1;
                    }
                }
                tests.push(fnv(format!("{:?} {} {} {:?} {:?}", s, n, q, ab, set).as_bytes()));
                if let Some(e) = stats::same(&h[0], &h[1], &format!("opened values {:?} of {:?} for inputs {:?} and {:?} (p={}, n={}, t={})", set, s, ab[0], ab[1], q, n, t)) {
                    return Err(e);
                }
            }
            let nt = ab[0] != ab[1];
            Ok(Info::new(nt)
                .label(pairs > 0, "pairs")
                .label(triples, "triples")
                .sub(2 * *runs as u64, if nt { tests } else { vec![] }))
        }
        Mask::Distinct { field, n, t, shape: s, value, seed, dealt, sched } => {
            ensure!(p.bits() >= 60, "field too small");
            let (n, t) = shape(*n, *t, p);
            let inputs = s.fit(&[*value], u64::MAX);
            let v = openings::<F>(p, (n, t), s, &inputs, *seed, *dealt, sched)?;
            let mut at: HashMap<&BigUint, usize> = HashMap::new();
            for (i, x) in v.iter().enumerate() {
                if let Some(j) = at.insert(x, i) {
                    return Err(format!("opened values {} and {} of {:?} agree: a mask is used twice (field {}, n={}, t={}, all operands {})", j, i, s, field, n, t, inputs[0]));
                }
                ensure!(!inputs.iter().any(|y| BigUint::from(*y) == *x), "opened value {} of {:?} is an input (field {}, n={}, t={})", i, s, field, n, t);
            }
            Ok(Info::new(v.len() > 2).label(true, "no repetition"))
        }
        Mask::Relations { field, n, t, shape: s, a, b, seed, dealt, sched } => {
            ensure!(p.bits() >= 60, "field too small");
            let (n, t) = shape(*n, *t, p);
            let ab = [s.fit(a, u64::MAX), s.fit(b, u64::MAX)];
            let mut runs = 0u64;
            let mut vars = 0;
            let mut forms = vec![];
            for w in 0..2 {
                let mut rows = vec![];
                loop {
                    runs += 1;
                    let o = openings::<F>(p, (n, t), s, &ab[w], mix(*seed ^ mix(runs)), *dealt, sched)?;
                    ensure!(vars == 0 || o.len() == vars, "the number of opened values depends on the inputs or on chance ({:?})", s);
                    vars = o.len();
                    ensure!(vars > 0, "nothing was opened by {:?}", s);
                    rows.push(rank::features(&o, p));
                    if rows.len() == rank::width(vars) + 3 {
                        break;
                    }
                }
                forms.push(rows);
            }
            if rank::has_log(p) {
                let mut forms = vec![];
                for w in 0..2 {
                    let mut rows = vec![];
                    while rows.len() < vars + 7 && runs < 1000 {
                        runs += 1;
                        let o = openings::<F>(p, (n, t), s, &ab[w], mix(*seed ^ mix(runs)), *dealt, sched)?;
                        rows.extend(rank::logs(&o));
                    }
                    forms.push(rows);
                }
                let e: Vec<_> = forms.iter().map(|r| rank::echelon(r.clone(), &rank::ORDER.into())).collect();
                if e[0] != e[1] {
                    let name = |i: usize| format!("o{}", i);
                    let text: Vec<String> = forms.into_iter().map(|r| rank::relation(r, &rank::ORDER.into()).map_or("no relation".into(), |r| rank::describe_logs(&r, &name))).collect();
                    return Err(format!("for inputs {:?} the values {:?} opens satisfy [{}], for inputs {:?} [{}]: other products (field {}, n={}, t={})", ab[0], s, text[0], ab[1], text[1], field, n, t));
                }
            }
            let e: Vec<_> = forms.iter().map(|r| rank::echelon(r.clone(), p)).collect();
            if e[0] != e[1] {
                let name = |i: usize| format!("o{}", i);
                let text: Vec<String> = forms.into_iter().map(|r| rank::relation(r, p).map_or("no relation".into(), |r| rank::describe(&r, vars, &name))).collect();
                return Err(format!("for inputs {:?} the values {:?} opens satisfy [{}], for inputs {:?} [{}] (field {}, n={}, t={})", ab[0], s, text[0], ab[1], text[1], field, n, t));
            }
            Ok(Info::new(ab[0] != ab[1] && vars > 1).label(true, "relations").label(vars <= 8, "quadratic relations"))
        }
    }
}

struct S09;
impl Prop for S09 {
    type Case = Mask;
    const ID: &'static str = "S09";
    const PROCESSES: bool = true;
    const RULE: &'static str = "Compare cases run one protocol thousands of times on two different input sets over a 3- to 7-element field with fresh uniform triples and nonzero masks each time, and compare the distributions of all opened values (each, every pair, sampled triples) by two-sample chi-square tests (false-alarm bound 1e-10 each); one evaluation per run, non-trivial instances are the compared sets of openings with different inputs. Distinct cases run larger batches in large fields on equal operands and require that no two opened values agree and none equals an input. Relations cases repeat a protocol in a large field with fresh randomness and require that the opened values satisfy exactly the same linear (few openings: quadratic) and, in the 61-bit field, multiplicative relations for two input sets, by exact rank computation (of the values, and of their logarithms modulo 1321). Non-trivial: different input sets; Distinct with more than two openings.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "multiplication triples are uniform and jointly generated masks uniform and nonzero",
        "joint distributions are compared through marginals, pairs and sampled triples of openings",
        "distributions are judged by chi-square tests with an explicit false-alarm bound",
    ];
    fn fixed(tier: Tier, seed: u64) -> Vec<Mask> {
        let mut v = vec![];
        let q = |x: u32| tier.pick(x, 8 * x);
        let mut k = 0;
        let mut cmp = |field: usize, shape: Shape, a: &[u64], b: &[u64], runs: u32| {
            k += 1;
            v.push(Mask::Compare { field, n: 2 + k % 2, t: 0, shape, a: a.into(), b: b.into(), seed: mix(seed ^ k as u64), runs: q(runs) });
        };
        // values for an unrestricted input are taken modulo p, for a nonzero one modulo p - 1 plus one
        for (f, p, runs) in [(0usize, 3u64, 1500u32), (15, 5, 4000), (1, 7, 3000)] {
            cmp(f, Shape::Mul, &[0, 0], &[1, 2], runs);
            cmp(f, Shape::Mul, &[1, 0], &[1, p - 1], runs);
            cmp(f, Shape::Inv, &[0], &[1], runs);
            cmp(f, Shape::Inv, &[0], &[p - 2], runs);
            cmp(f, Shape::Or1, &[0], &[1], runs);
            cmp(f, Shape::Select, &[0, 0, 1], &[1, 0, 1], runs);
            cmp(f, Shape::Select, &[0, 0, 0], &[0, 1, 2], runs);
            cmp(f, Shape::Twice(0), &[1, 1], &[2, 0], runs);
            cmp(f, Shape::Twice(1), &[0, 0], &[1, 0], runs);
            cmp(f, Shape::MulBatch(2), &[1, 1, 1, 1], &[1, 0, 0, 1], runs);
            cmp(f, Shape::MulBatch(3), &[0, 0, 0, 0, 0, 0], &[1, 2, 0, 2, 1, 1], runs);
            cmp(f, Shape::InvBatch(2), &[0, 0], &[0, 1], runs);
            cmp(f, Shape::InvBatch(3), &[1, 1, 1], &[0, 1, 0], runs);
            if p > 3 {
                cmp(f, Shape::Or(2), &[0, 0], &[1, 0], runs);
                cmp(f, Shape::Or(2), &[0, 0], &[1, 1], runs);
                cmp(f, Shape::Or(2), &[0, 1], &[1, 0], runs);
                cmp(f, Shape::Or(3), &[0, 0, 0], &[1, 1, 0], runs);
                cmp(f, Shape::Twice(2), &[0, 0], &[1, 1], runs);
            }
            if p > 5 {
                cmp(f, Shape::Or(4), &[0, 0, 0, 0], &[1, 1, 1, 1], runs);
                cmp(f, Shape::Or(5), &[0, 0, 0, 0, 0], &[1, 0, 1, 1, 0], runs);
            }
        }
        cmp(0, Shape::MulBatch(6), &[0], &[1, 0, 0, 1, 1, 2, 0, 1, 2, 2, 0, 0], 1500);
        cmp(0, Shape::InvBatch(6), &[0], &[1, 0, 0, 1, 1, 0], 1500);
        for (i, f) in [7usize, 21].iter().enumerate() {
            for (j, s) in [Shape::MulBatch(40), Shape::MulBatch(9), Shape::InvBatch(30), Shape::InvBatch(5), Shape::Or(12), Shape::Or(4), Shape::Twice(0), Shape::Twice(1), Shape::Twice(2), Shape::Select].iter().enumerate() {
                for value in [1u64, 0, 5] {
                    for dealt in [false, true] {
                        v.push(Mask::Distinct { field: *f, n: 3, t: 1, shape: *s, value, seed: mix(seed ^ (i * 100 + j) as u64), dealt, sched: Sched { kind: j as u8 % 7, seed, lazy: dealt } });
                    }
                }
            }
        }
        for (j, s) in [Shape::MulBatch(65), Shape::MulBatch(129), Shape::MulBatch(150), Shape::MulBatch(300), Shape::MulBatch(1100), Shape::InvBatch(65), Shape::InvBatch(150), Shape::InvBatch(300), Shape::MulBatch(2100), Shape::MulBatch(4200), Shape::MulBatch(8400), Shape::InvBatch(600), Shape::InvBatch(1100), Shape::InvBatch(2100), Shape::InvBatch(4200), Shape::Or(33), Shape::Or(40), Shape::Or(66)].iter().enumerate() {
            for dealt in [false, true] {
                v.push(Mask::Distinct { field: [7usize, 21][j % 2], n: 2, t: 0, shape: *s, value: j as u64, seed: mix(seed ^ 700 + j as u64), dealt, sched: Sched { kind: if j < 8 { j as u8 % 7 } else { 3 }, seed, lazy: dealt } });
            }
        }
        // many calls one after the other
        for (j, s) in (0..3u8).flat_map(|k| [Shape::Many(k, 40), Shape::Many(k, 140), Shape::Many(k, 300)]).enumerate() {
            v.push(Mask::Distinct { field: [7usize, 21][j % 2], n: 2, t: 0, shape: s, value: j as u64, seed: mix(seed ^ 800 + j as u64), dealt: j % 2 == 0, sched: Sched { kind: j as u8 % 7, seed, lazy: j % 4 < 2 } });
        }
        for (i, f) in [7usize, 21].iter().enumerate() {
            for (j, s) in [Shape::MulBatch(30), Shape::MulBatch(9), Shape::InvBatch(20), Shape::InvBatch(5), Shape::Or(12), Shape::Or(4), Shape::Mul, Shape::Inv, Shape::Or1, Shape::Twice(0), Shape::Twice(1), Shape::Twice(2), Shape::Select].iter().enumerate() {
                for dealt in [false, true] {
                    v.push(Mask::Relations { field: *f, n: 2 + j % 2, t: 0, shape: *s, a: vec![0], b: vec![1, 0, 3, 6, 4, 2, 8, 11], seed: mix(seed ^ (i * 100 + j) as u64), dealt, sched: Sched { kind: j as u8 % 7, seed, lazy: dealt } });
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(400, 5000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Mask> {
        let shape = || {
            prop_oneof![
                Just(Shape::Mul),
                (1usize..5).prop_map(Shape::MulBatch),
                Just(Shape::Inv),
                (1usize..5).prop_map(Shape::InvBatch),
                Just(Shape::Or1),
                (1usize..4).prop_map(Shape::Or),
                Just(Shape::Select),
                (0u8..3).prop_map(Shape::Twice),
            ]
        };
        let input = || prop::collection::vec(0u64..420, 8);
        let compare = (prop::sample::select(vec![15usize, 15, 1]), 2usize..4, 0usize..3, shape(), input(), input(), any::<u64>())
            .prop_map(move |(field, n, t, shape, a, b, seed)| Mask::Compare { field, n, t, shape, a, b, seed, runs: tier.pick(2000, 10_000) });
        let large = prop_oneof![
            (1usize..40).prop_map(Shape::MulBatch),
            (1usize..25).prop_map(Shape::InvBatch),
            (1usize..10).prop_map(Shape::Or),
            shape(),
        ];
        let distinct = (prop::sample::select(vec![7usize, 21]), parties(), large, any::<u64>(), any::<u64>(), any::<bool>(), sched())
            .prop_map(|(field, (n, t), shape, value, seed, dealt, sched)| Mask::Distinct { field, n, t, shape, value: value % 100, seed, dealt, sched });
        let some = prop_oneof![
            2 => shape(),
            1 => (1usize..20).prop_map(Shape::MulBatch),
            1 => (1usize..12).prop_map(Shape::InvBatch),
            1 => (1usize..7).prop_map(Shape::Or),
        ];
        let relations = (prop::sample::select(vec![7usize, 7, 21]), 2usize..4, 0usize..3, some, input(), input(), (any::<u64>(), any::<bool>(), sched()))
            .prop_map(|(field, n, t, shape, a, b, (seed, dealt, sched))| Mask::Relations { field, n, t, shape, a, b, seed, dealt, sched });
        prop_oneof![1 => compare, 9 => distinct, 6 => relations].boxed()
    }
    fn check(c: &Mask) -> Res {
        let field = match c {
            Mask::Compare { field, .. } | Mask::Distinct { field, .. } | Mask::Relations { field, .. } => *field,
        };
        let p = prime(field);
        with_net!(field, |F| check_mask::<F>(c, &p))
    }
}

// ------------------------------------------------------------------------------------------------ S12

struct S12;
impl Prop for S12 {
    type Case = Job;
    const ID: &'static str = "S12";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a random straight-line program over all sharing operations (linear, multiplication, inversion, OR, selection, random numbers, singly and batched), executed by n parties on a simulated network with a chosen schedule and compared register by register with plain evaluation; mostly with the library's own sharing and reconstruction for inputs, openings and joint numbers, and each register also reconstructed by the library from a random subset of at least t parties. Non-trivial: at least three kinds of operation, two of them interactive.";
    const ASSUMPTIONS: &'static [&'static str] =
        &["jointly generated masks are nonzero: dealt so in small fields, and up to a chance below 2^-50 in large ones", "the network delivers every message eventually, unaltered"];
    fn cases(tier: Tier) -> u32 {
        tier.pick(6000, 150_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Job> {
        let r = any::<u16>;
        let many = |k: usize| prop::collection::vec(any::<u16>(), 0..k);
        let ins = prop_oneof![
            5 => linear_ins(),
            2 => (r(), r()).prop_map(|(a, b)| Ins::Mul(a, b)),
            2 => prop::collection::vec((r(), r()), 0..6).prop_map(Ins::MulBatch),
            1 => r().prop_map(Ins::Inv),
            2 => many(6).prop_map(Ins::InvBatch),
            1 => r().prop_map(Ins::Or1),
            2 => many(6).prop_map(Ins::Or),
            2 => (r(), r(), r()).prop_map(|(c, a, b)| Ins::Select(c, a, b)),
            1 => Just(Ins::Rand),
            1 => (0u8..4).prop_map(Ins::Rands),
        ];
        let len = tier.pick(10, 25);
        (net_field(), parties(), any::<(bool, bool)>(), 0u8..4, sched(), any::<u64>(), prop::collection::vec(rel_el(), 1..6), prop::collection::vec(ins, 1..len))
            .prop_map(|(field, (n, t), (odd, dealt), library, sched, seed, inputs, prog)| Job {
                field,
                n,
                t,
                dealt,
                odd_triples: odd && seed % 2 == 0,
                library: library > 0,
                sched,
                seed,
                inputs,
                prog,
            })
            .boxed()
    }
    fn check(j: &Job) -> Res {
        let d = job(j)?;
        let joint = d.kinds.iter().filter(|k| **k != "linear").count();
        let i = Info::new(d.kinds.len() >= 3 && joint >= 2);
        let i = ["linear", "multiply", "multiply batch", "invert", "invert batch", "or", "or of one", "select", "random"]
            .iter()
            .fold(i, |i, k| i.label(d.kinds.contains(k), k));
        Ok(labels(i, j, &d).label(j.library, "library sharing throughout"))
    }
}

// ------------------------------------------------------------------------------------------------ S13

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Batch {
    Multiply,
    Invert,
    Or,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rounds {
    field: usize,
    n: usize,
    t: usize,
    what: Batch,
    size: usize,
    lazy: bool,
    dealt: bool,
    seed: u64,
}

fn count_rounds<F: FieldBounds>(c: &Rounds, p: &BigUint, size: usize) -> Result<usize, String> {
    let (n, t) = shape(c.n, c.t, p);
    let mut coins = Sm(mix(c.seed ^ 21));
    let sched = Sched { kind: 3, seed: c.seed, lazy: c.lazy };
    let bound = if c.what == Batch::Or { BigUint::from(2u32) } else { p.clone() };
    let inputs: Vec<BigUint> =
        (0..2 * size).map(|_| if c.what == Batch::Invert { nonzero(&bound, &mut coins) } else { below(&bound, &mut coins) }).collect();
    let op: Op<F> = match c.what {
        Batch::Multiply => Op::MulBatch((0..size).map(|i| (2 * i, 2 * i + 1)).collect()),
        Batch::Invert => Op::InvBatch((0..size).collect()),
        Batch::Or => Op::Or((0..size).collect()),
    };
    let setup = Setup {
        p: p.clone(),
        n,
        t,
        seed: c.seed,
        sched: &sched,
        odd_triples: false,
        odd_shares: false,
        dealt: c.dealt || p.bits() < 60,
        ops: vec![op],
        library: false,
        inputs,
        adversary: None,
        party_seeds: vec![],
        threads: false,
        stop_after: None,
    };
    Ok(run::<F, Party<F>>(setup)?.rounds)
}

fn check_rounds<F: FieldBounds>(c: &Rounds, p: &BigUint) -> Res {
    let mut size = c.size.max(1);
    if let (Batch::Or, Some(q)) = (c.what, small(p)) {
        size = size.min(q - 2);
    }
    let one = count_rounds::<F>(c, p, 1)?;
    let two = if c.what != Batch::Or || size >= 2 { count_rounds::<F>(c, p, 2)? } else { one };
    let many = count_rounds::<F>(c, p, size)?;
    let (n, t) = shape(c.n, c.t, p);
    ensure!(many <= one.max(two), "{:?} takes {} rounds for {} elements but {} for one and {} for two (n={}, t={}, field {}, lazy {})", c.what, many, size, one, two, n, t, c.field, c.lazy);
    if c.what == Batch::Multiply {
        ensure!(many <= 2, "batched multiplication of {} pairs takes {} rounds, one to obtain triples and {} more (n={}, t={}, field {}, lazy {})", size, many, many - 1, n, t, c.field, c.lazy);
    }
    Ok(Info::new(size > 2).label(c.what == Batch::Multiply, "multiplication").label(c.what == Batch::Invert, "inversion").label(c.what == Batch::Or, "or").label(c.lazy, "messages sent on first poll"))
}

struct S13;
impl Prop for S13 {
    type Case = Rounds;
    const ID: &'static str = "S13";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case runs one batched protocol for a batch size on a lock-step network (all parties run until none can, then all messages sent so far arrive: one round), with messages sent when a call is made or when its future is first polled, and compares the number of rounds with those for one and two elements (metamorphic); batched multiplication must take at most two rounds. Non-trivial: more than two elements.";
    const ASSUMPTIONS: &'static [&'static str] = &["obtaining triples and dealt random numbers costs one round each, whatever their number"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Rounds> {
        let mut v = vec![];
        for what in [Batch::Multiply, Batch::Invert, Batch::Or] {
            for size in (1..13).chain([20, 33]) {
                for lazy in [false, true] {
                    v.push(Rounds { field: if size % 2 == 0 { 17 } else { 7 }, n: 3, t: 0, what, size: if what == Batch::Or { size.min(16) } else { size }, lazy, dealt: size % 3 == 0, seed });
                }
            }
            for f in NET {
                v.push(Rounds { field: f, n: 4, t: 1, what, size: if what == Batch::Or { 8 } else { tier.pick(70, 1000) }, lazy: f % 2 == 0, dealt: true, seed });
            }
        }
        for (i, size) in [129usize, 260, 520, 1030, 2050, 4100, 8200, 16_400].into_iter().enumerate() {
            for what in [Batch::Multiply, Batch::Invert] {
                let small = what == Batch::Multiply || tier == Tier::Thorough;
                if small || size < 5000 {
                    v.push(Rounds { field: [7, 17][i % 2], n: 2, t: 0, what, size, lazy: i % 3 == 0, dealt: i % 2 == 0, seed });
                }
            }
        }
        for (i, size) in tier.pick(vec![26usize, 40, 66, 131], vec![26, 60, 66, 131, 257, 300]).into_iter().enumerate() {
            v.push(Rounds { field: if size > 100 { 17 } else { 7 }, n: 2, t: 0, what: Batch::Or, size, lazy: i % 2 == 1, dealt: size > 100, seed });
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(1500, 40_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Rounds> {
        let what = prop_oneof![Just(Batch::Multiply), Just(Batch::Invert), Just(Batch::Or)];
        (net_field(), parties(), what, 1usize..30, any::<(bool, bool)>(), any::<u64>())
            .prop_map(|(field, (n, t), what, size, (lazy, dealt), seed)| Rounds {
                field,
                n,
                t,
                what,
                size: if what == Batch::Or { 1 + size % 9 } else { size },
                lazy,
                dealt,
                seed,
            })
            .boxed()
    }
    fn check(c: &Rounds) -> Res {
        let p = prime(c.field);
        with_net!(c.field, |F| check_rounds::<F>(c, &p))
    }
}

// ------------------------------------------------------------------------------------------------ S14

/// One program on two vectors of inputs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    field: usize,
    n: usize,
    t: usize,
    dealt: bool,
    odd_triples: bool,
    library: bool,
    lazy: bool,
    /// another schedule for the same program
    sched: Sched,
    seed: u64,
    inputs: Vec<El>,
    other: Vec<El>,
    prog: Vec<Ins>,
}

type Trace = Vec<Vec<(char, usize, usize)>>;

struct Talked {
    calls: Trace,
    awaited: Vec<BTreeMap<Slot, usize>>,
    contributed: Vec<Vec<Option<BigUint>>>,
}

fn check_talk<F: FieldBounds>(c: &Talk, p: &BigUint) -> Res {
    let (n, t) = shape(c.n, c.t, p);
    let dealt = c.dealt || p.bits() < 60;
    let a = values(&c.inputs, p);
    ensure!(!a.is_empty(), "no inputs");
    let number = |k: usize| program_number(c.seed, k, p);
    let ops = resolve::<F>(&c.prog, &a, p, number);
    // other inputs on which the program is defined: as generated, or of the same kind, or else the same
    let defined = plain(&ops, &a, p, number).iter().filter(|v| v.is_some()).count();
    let mut other = values(&c.other, p);
    ensure!(!other.is_empty(), "no inputs");
    other = (0..a.len()).map(|i| other[i % other.len()].clone()).collect();
    let alike: Vec<BigUint> = a
        .iter()
        .zip(&other)
        .map(|(a, b)| if *a <= BigUint::one() { b % 2u32 } else if b.is_zero() { BigUint::one() } else { b.clone() })
        .collect();
    let bits: Vec<BigUint> = a.iter().zip(&other).map(|(a, b)| if *a <= BigUint::one() { b % 2u32 } else { a.clone() }).collect();
    let zeros: Vec<BigUint> = a.iter().map(|_| BigUint::zero()).collect();
    let units: Vec<BigUint> = a.iter().map(|_| BigUint::one()).collect();
    let mut candidates = vec![other, alike, bits, units, a.clone()];
    if c.seed % 3 == 0 {
        candidates.insert(0, zeros);
    }
    let b = candidates.into_iter().find(|b| plain(&ops, b, p, number).iter().filter(|v| v.is_some()).count() == defined).unwrap();

    let lock = Sched { kind: 3, seed: c.seed & !32, lazy: c.lazy };
    let talk = |inputs: &[BigUint], sched: &Sched, odd_shares: bool| -> Result<Talked, String> {
        let out = run::<F, Party<F>>(Setup {
            p: p.clone(),
            n,
            t,
            seed: c.seed,
            sched,
            odd_triples: c.odd_triples,
            odd_shares,
            dealt,
            ops: ops.clone(),
            library: c.library && !odd_shares,
            inputs: inputs.to_vec(),
            adversary: None,
            party_seeds: vec![],
            threads: false,
            stop_after: None,
        })?;
        let net = out.net.lock().unwrap();
        Ok(Talked { calls: net.trace.clone(), awaited: net.awaited.clone(), contributed: net.contributed.values().cloned().collect() })
    };
    let show = |v: &[BigUint]| v.iter().map(hex).collect::<Vec<_>>();
    let text = || format!("field {}, n={}, t={}, program {:?}, inputs {:?} and {:?}", c.field, n, t, ops, show(&a), show(&b));
    let first = |x: &[(char, usize, usize)], y: &[(char, usize, usize)]| {
        let k = x.iter().zip(y).take_while(|(x, y)| x == y).count();
        let name = |v: Option<&(char, usize, usize)>| match v {
            None => "nothing".to_string(),
            Some((w, k, r)) => format!("{} (round {})", match w { 'o' => "an opening".into(), 'd' => "a distribution".into(), 't' => format!("{} triples", k), _ => "a random number".to_string() }, r),
        };
        format!("call {} is {} in the one and {} in the other", k, name(x.get(k)), name(y.get(k)))
    };
    let late = |x: &BTreeMap<Slot, usize>, y: &BTreeMap<Slot, usize>| {
        let k = x.keys().chain(y.keys()).filter(|k| x.get(k) != y.get(k)).min().copied();
        k.map_or("nothing".into(), |k| {
            let name = |r: Option<&usize>| r.map_or("never".into(), |r| format!("in round {}", r));
            format!("{:?} is first waited for {} in the one and {} in the other", k, name(x.get(&k)), name(y.get(&k)))
        })
    };
    // everybody makes the same calls
    let ta = talk(&a, &lock, false)?;
    for i in 1..n {
        ensure!(ta.calls[0] == ta.calls[i], "parties 1 and {} communicate differently: {} ({})", i + 1, first(&ta.calls[0], &ta.calls[i]), text());
        ensure!(ta.awaited[0] == ta.awaited[i], "parties 1 and {} communicate differently: {} ({})", i + 1, late(&ta.awaited[0], &ta.awaited[i]), text());
    }
    // whatever the inputs and the polynomials that share them
    for odd in [false, true] {
        let tb = talk(&b, &lock, odd)?;
        for i in 0..n {
            ensure!(ta.calls[i] == tb.calls[i], "what party {} communicates depends on the inputs or their shares: {} ({}, peculiar sharing {})", i + 1, first(&ta.calls[i], &tb.calls[i]), text(), odd);
            ensure!(ta.awaited[i] == tb.awaited[i], "what party {} waits for depends on the inputs or their shares: {} ({}, peculiar sharing {})", i + 1, late(&ta.awaited[i], &tb.awaited[i]), text(), odd);
        }
        ensure!(ta.contributed == tb.contributed, "the numbers parties contribute depend on the inputs or their shares ({})", text());
    }
    // whatever the schedule
    let strip = |t: &Talked| -> Trace { t.calls.iter().map(|v| v.iter().map(|(w, k, _)| (*w, *k, 0)).collect()).collect() };
    let ts = talk(&a, &c.sched, false)?;
    let (s, l) = (strip(&ts), strip(&ta));
    for i in 0..n {
        ensure!(s[i] == l[i], "what party {} communicates depends on the order in which messages arrive: {} ({}, schedule {:?})", i + 1, first(&l[i], &s[i]), text(), c.sched);
        ensure!(ta.awaited[i].keys().eq(ts.awaited[i].keys()), "what party {} waits for depends on the order in which messages arrive ({}, schedule {:?})", i + 1, text(), c.sched);
    }
    ensure!(ta.contributed == ts.contributed, "the numbers parties contribute depend on the order in which messages arrive ({})", text());
    let local = ops.iter().all(|o| matches!(o, Op::Add(..) | Op::Sub(..) | Op::AddScalar(..) | Op::SubScalar(..) | Op::MulScalar(..) | Op::Sum(..)));
    ensure!(!local || ta.calls[0].is_empty(), "linear operations communicate ({})", text());
    let opens = ta.calls[0].iter().filter(|x| x.0 == 'o').count();
    Ok(Info::new(a != b && opens > 0)
        .label(a != b, "different inputs")
        .label(local, "linear operations alone")
        .label(opens > 8, "more than eight openings")
        .label(!dealt, "numbers from the joint protocol")
        .label(c.odd_triples, "extreme triples")
        .label(b.iter().all(|v| v.is_zero()), "all zero"))
}

struct S14;
impl Prop for S14 {
    type Case = Talk;
    const ID: &'static str = "S14";
    const PROCESSES: bool = true;
    const RULE: &'static str = "A case is a straight-line program over the sharing operations, run with the same generators on two vectors of inputs (the second also shared over peculiar polynomials: constant, with zero shares), in lock step, and once more under another schedule. Every party must make the same communication calls in the same order in all runs, in the same rounds in the lock-step ones, and contribute the same numbers (metamorphic: noninterference); linear operations must make none. Non-trivial: the inputs differ and values are opened.";
    const ASSUMPTIONS: &'static [&'static str] = &["inputs on which the program is defined (no inverse of zero, ORs and conditions on bits)", "masks are nonzero: dealt so in small fields, and up to a chance below 2^-50 in large ones"];
    fn fixed(tier: Tier, seed: u64) -> Vec<Talk> {
        let mut v = vec![];
        let mut k = 0u64;
        let progs: Vec<Vec<Ins>> = vec![
            vec![Ins::Mul(0, 1)],
            vec![Ins::MulBatch(vec![(0, 1), (1, 2), (2, 0), (0, 0)])],
            vec![Ins::Inv(0)],
            vec![Ins::InvBatch(vec![0, 1, 2])],
            vec![Ins::Or1(0)],
            vec![Ins::Or(vec![0, 1, 2])],
            vec![Ins::Select(0, 1, 2)],
            vec![Ins::Rand, Ins::Rands(3)],
            vec![Ins::Add(0, 1), Ins::Sub(0, 0), Ins::MulScalar(1, El::Small(0)), Ins::AddScalar(2, El::Small(1)), Ins::SubScalar(2, El::Small(1)), Ins::Sum(vec![0, 1, 2])],
        ];
        for f in NET {
            for prog in &progs {
                for vals in [[0u64, 0, 0], [1, 1, 1], [1, 0, 1], [0, 1, 0]].iter().take(tier.pick(3, 4)) {
                    for n in [2usize, 3, 4] {
                        k += 1;
                        let r = mix(seed ^ mix(k));
                        v.push(Talk {
                            field: f,
                            n,
                            t: k as usize % 3,
                            dealt: k % 2 == 0,
                            odd_triples: k % 5 == 0,
                            library: k % 3 == 0,
                            lazy: k % 4 < 2,
                            sched: Sched { kind: (k % 7) as u8, seed: r, lazy: k % 8 < 4 },
                            seed: r,
                            inputs: vec![El::Small(1), El::Small(1), El::Small(1)],
                            other: vals.iter().map(|x| El::Small(*x)).collect(),
                            prog: prog.clone(),
                        });
                        let mut w = v.last().unwrap().clone();
                        w.inputs = (0..3).map(|i| El::Rand(r + i)).collect();
                        v.push(w);
                    }
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(3000, 80_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Talk> {
        let r = any::<u16>;
        let many = |k: usize| prop::collection::vec(any::<u16>(), 0..k);
        let ins = prop_oneof![
            2 => linear_ins(),
            2 => (r(), r()).prop_map(|(a, b)| Ins::Mul(a, b)),
            2 => prop::collection::vec((r(), r()), 0..6).prop_map(Ins::MulBatch),
            1 => r().prop_map(Ins::Inv),
            2 => many(5).prop_map(Ins::InvBatch),
            1 => r().prop_map(Ins::Or1),
            2 => many(5).prop_map(Ins::Or),
            2 => (r(), r(), r()).prop_map(|(c, a, b)| Ins::Select(c, a, b)),
            1 => Just(Ins::Rand),
            1 => (0u8..4).prop_map(Ins::Rands),
        ];
        let bit = || (0u64..2).prop_map(El::Small);
        let inputs = || prop::collection::vec(prop_oneof![2 => bit().boxed(), 2 => rel_el()], 1..6);
        (net_field(), parties(), any::<[bool; 4]>(), sched(), any::<u64>(), inputs(), inputs(), prop::collection::vec(ins, 1..6))
            .prop_map(|(field, (n, t), [dealt, odd_triples, library, lazy], sched, seed, inputs, other, prog)| Talk {
                field,
                n,
                t,
                dealt,
                odd_triples,
                library,
                lazy,
                sched,
                seed,
                inputs,
                other,
                prog,
            })
            .boxed()
    }
    fn check(c: &Talk) -> Res {
        let p = prime(c.field);
        with_net!(c.field, |F| check_talk::<F>(c, &p))
    }
}

fn main() {
    jv::main(&[jv::reg::<S04>(), jv::reg::<S05>(), jv::reg::<S06>(), jv::reg::<S07>(), jv::reg::<S08>(), jv::reg::<S09>(), jv::reg::<S12>(), jv::reg::<S13>(), jv::reg::<S14>()])
}
