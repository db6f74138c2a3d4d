#![recursion_limit = "512"]
use jv::field::*;
use jv::mpc::*;
use jv::pace::{self, Pace, Pacer};
use jv::{ensure, ensure_eq, mix, no_panic, with_net, Info, Prop, Res, Tier};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OneOr {
    field: usize,
    n: usize,
    t: usize,
    bits: Vec<bool>,
    /// abandoned after so many steps, if not zero
    stop: usize,
    sched: Sched,
    seed: u64,
}

/// Joint ORs computed by one process: one list per thread.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    lanes: Vec<Vec<OneOr>>,
    /// the threads run one at a time and are switched so
    #[serde(default)]
    pace: Option<Pace>,
}

fn one_or<F: FieldBounds>(o: &OneOr, p: &BigUint) -> Result<(), String> {
    let (n, t) = shape(o.n, o.t, p);
    let mut bits = o.bits.clone();
    if let Some(q) = small(p) {
        bits.truncate(q - 2);
    }
    ensure!(!bits.is_empty(), "no bits");
    let setup = Setup {
        p: p.clone(),
        n,
        t,
        seed: o.seed,
        sched: &o.sched,
        odd_triples: false,
        odd_shares: false,
        dealt: true,
        ops: vec![Op::<F>::Or((0..bits.len()).collect())],
        library: false,
        inputs: bits.iter().map(|b| BigUint::from(*b as u32)).collect(),
        adversary: None,
        party_seeds: vec![],
        threads: true,
        stop_after: if o.stop > 0 { Some(o.stop) } else { None },
    };
    let out = match run::<F, Party<F>>(setup) {
        Err(e) if e == STOPPED => return Ok(()),
        r => r?,
    };
    let shares: Vec<(usize, BigUint)> = out.regs.iter().map(|r| (r[bits.len()].0, r[bits.len()].1.as_uint())).collect();
    let v = Lines::new(n, t, p).open(&shares)?;
    ensure_eq!(hex(&v), hex(&BigUint::from(bits.iter().any(|b| *b) as u32)), "joint OR of {:?}", bits);
    Ok(())
}

/// Every allocation is a point where a paced computation may switch between threads.
struct Stepping;
unsafe impl GlobalAlloc for Stepping {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        pace::step();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        pace::step();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        pace::step();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Stepping = Stepping;

fn one_or_any(o: &OneOr) -> Result<(), String> {
    let p = prime(o.field);
    with_net!(o.field, |F| one_or::<F>(o, &p))
}

fn shared_field() -> BoxedStrategy<usize> {
    prop::sample::select(vec![16usize, 6, 7, 1, 17, 21, 8, 10]).boxed()
}

struct S10;
impl Prop for S10 {
    type Case = History;
    const ID: &'static str = "S10";
    const RULE: &'static str = "A case is a history of joint ORs, on one to four threads, over several fields and vector lengths, some of them abandoned half way, run in a process of its own; in about half of the cases the threads run one at a time and are switched at memory allocations (at random, or at one to four chosen ones; interruptions at a single one are swept); every completed OR must yield the disjunction of its bits. Non-trivial: the history spans at least two fields or two vector lengths (after clipping to the field), or runs on several threads.";
    const ASSUMPTIONS: &'static [&'static str] = &["jointly generated masks are nonzero", "threads are switched at memory allocations and network events, or where the operating system does"];
    const FRESH_PROCESS: bool = true;
    fn fixed(tier: Tier, seed: u64) -> Vec<History> {
        let or = |field: usize, l: usize, one: Option<usize>, k: u64| OneOr {
            field,
            n: 2,
            t: 0,
            bits: (0..l).map(|i| Some(i) == one).collect(),
            stop: 0,
            sched: Sched { kind: 0, seed, lazy: false },
            seed: mix(seed ^ k),
        };
        let mut v = vec![];
        // every ordered pair of fields, growing and shrinking
        for (i, f) in NET.iter().enumerate() {
            for (j, g) in NET.iter().enumerate() {
                let k = (i * 10 + j) as u64;
                v.push(History { lanes: vec![vec![or(*f, 3, None, k), or(*g, 3, Some(1), k + 1), or(*g, 2, None, k + 2), or(*f, 1, Some(0), k + 3), or(*f, 4, Some(3), k + 4)]], pace: None });
                // all bits set, one after another
                let all = |f: usize, l: usize, k: u64| OneOr { bits: vec![true; l], ..or(f, l, None, k) };
                v.push(History { lanes: vec![vec![all(*f, 4, k + 5), all(*g, 4, k + 6), or(*f, 5, None, k + 7), all(*g, 6, k + 8), all(*f, 5, k + 9), all(*f, 6, k)]], pace: None });
            }
        }
        for f in [16usize, 17, 7, 21] {
            v.push(History { lanes: vec![(1..8).rev().chain(1..8).map(|l| or(f, l, if l % 2 == 0 { Some(l - 1) } else { None }, l as u64)).collect()], pace: None });
            v.push(History { lanes: (0..4).map(|lane| (1..8).map(|l| or(f, l, if (l + lane) % 2 == 0 { Some(l - 1) } else { None }, (l * lane) as u64)).collect()).collect(), pace: None });
        }
        // long vectors before and after short ones, with few or many bits set
        for (i, (f, a, b)) in tier.pick(vec![(17usize, 3, 20), (17, 18, 25), (7, 4, 22), (7, 33, 5), (21, 17, 22)], vec![(17, 3, 20), (17, 70, 66), (17, 33, 64), (7, 4, 22), (7, 33, 18), (7, 40, 5), (21, 17, 32), (11, 18, 24), (21, 33, 30)]).into_iter().enumerate() {
            for set in 0..4 {
                let k = 1000 + (i * 8 + set) as u64;
                let mut o = vec![or(f, a, None, k), or(f, b, None, k + 1), or(f, a, None, k + 2)];
                for x in &mut o {
                    let l = x.bits.len();
                    let count = [0, 1, l - l / 4, l][set];
                    for i in 0..count {
                        x.bits[(i + k as usize) % l] = true;
                    }
                }
                v.push(History { lanes: vec![o], pace: None });
            }
        }
        for s in 1..40 {
            let mut a = or(17, 5, Some(2), s);
            a.stop = s as usize * 3;
            v.push(History { lanes: vec![vec![a, or(17, 5, None, 1), or(17, 6, Some(5), 2)]], pace: None });
        }
        // two threads, the first interrupted once, at every step
        for (f, l, l2, steps) in tier.pick(vec![(16usize, 2usize, 2usize, 240u32), (6, 3, 1, 240)], vec![(16, 2, 2, 8000), (6, 3, 1, 8000), (16, 1, 3, 3000), (1, 3, 3, 12_000)]) {
            for k in 1..=steps {
                let k = tier.pick(k * 17 + (mix(seed ^ f as u64) % 17) as u32, k);
                v.push(History { lanes: vec![vec![or(f, l, Some(0), 1)], vec![or(f, l2, None, 2)]], pace: Some(Pace::At(vec![k], seed)) });
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(1200, 30_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<History> {
        let bits = (prop_oneof![40 => 1usize..9, 2 => 9usize..20, 1 => 20usize..24], any::<u32>(), 0u8..4)
            .prop_map(|(l, k, none)| (0..l).map(|i| none > 1 && k >> (i % 32) & 1 == 1 || none == 1).collect::<Vec<bool>>());
        let or = (net_field(), 2usize..5, 0usize..4, bits, prop_oneof![5 => Just(0usize), 1 => 1usize..300], sched(), any::<u64>())
            .prop_map(|(field, n, t, bits, stop, sched, seed)| OneOr { field, n, t, bits, stop, sched, seed });
        let lane = prop::collection::vec(or, 1..7);
        let pace = prop_oneof![
            2 => (4u8..13, any::<u64>()).prop_map(|(k, s)| Pace::Random(k, s)),
            3 => (prop::collection::vec(prop_oneof![1u32..1000, 1u32..5000, 1u32..30_000], 1..5), any::<u64>()).prop_map(|(at, s)| Pace::At(at, s)),
        ];
        // threads that mostly work on the same field
        let short = (0usize..4, prop_oneof![8 => 1usize..6, 1 => 6usize..9], any::<u8>(), prop_oneof![9 => Just(0usize), 1 => 1usize..60], any::<u64>());
        let paced = (prop::collection::vec(prop::collection::vec(short, 1..3), 2..4), pace, shared_field(), shared_field())
            .prop_map(|(lanes, pace, f, g)| History {
                lanes: lanes
                    .into_iter()
                    .map(|l| {
                        l.into_iter()
                            .map(|(other, len, k, stop, seed)| OneOr {
                                field: if other == 0 { g } else { f },
                                n: 2,
                                t: 0,
                                bits: (0..len).map(|i| k & 1 == 1 && (k >> 1) as usize % len == i).collect(),
                                stop,
                                sched: Sched { kind: 0, seed, lazy: seed & 1 == 1 },
                                seed,
                            })
                            .collect()
                    })
                    .collect(),
                pace: Some(pace),
            });
        prop_oneof![
            3 => prop::collection::vec(lane.clone(), 1..2).prop_map(|lanes| History { lanes, pace: None }),
            2 => prop::collection::vec(lane, 2..5).prop_map(|lanes| History { lanes, pace: None }),
            5 => paced,
        ]
        .boxed()
    }
    fn check(h: &History) -> Res {
        let threads = h.lanes.len() > 1;
        let go = |lane: usize| -> Result<(), String> {
            for (i, o) in h.lanes[lane].iter().enumerate() {
                no_panic(|| one_or_any(o))
                    .map_err(|e| format!("panicked: {}", e))
                    .and_then(|r| r)
                    .map_err(|e| format!("{} (computation {} of thread {}, field {}, {} bits)", e, i, lane, o.field, o.bits.len()))?;
            }
            Ok(())
        };
        // threads do not meet at the initialisation of the primes
        for o in h.lanes.iter().flatten().filter(|_| h.pace.is_some()) {
            let p = prime(o.field);
            with_net!(o.field, |F| ensure_eq!(<F as PrimeField>::field_prime().as_uint(), p, "prime"));
        }
        let pacer = h.pace.as_ref().map(|p| Pacer::new(p, h.lanes.len()));
        if threads {
            std::thread::scope(|s| {
                let (go, pacer) = (&go, pacer);
                let all: Vec<_> = (0..h.lanes.len())
                    .map(|l| {
                        s.spawn(move || match pacer {
                            Some(p) => p.lane(l, || go(l)),
                            None => go(l),
                        })
                    })
                    .collect();
                all.into_iter().map(|t| t.join().unwrap()).collect::<Result<Vec<_>, _>>()
            })?;
        } else {
            for l in 0..h.lanes.len() {
                go(l)?;
            }
        }
        let kinds: BTreeSet<(usize, usize)> =
            h.lanes.iter().flatten().map(|o| (o.field, o.bits.len().min(small(&prime(o.field)).map_or(usize::MAX, |q| q - 2)))).collect();
        let (steps, switches, stalls) = pacer.map_or((0, 0, 0), |p| p.counts());
        if std::env::var("JV_STEPS").is_ok() {
            eprintln!("{} steps, {} switches, {} stalls", steps, switches, stalls);
        }
        Ok(Info::new(kinds.len() > 1 || threads)
            .label(threads, "several threads")
            .label(switches as usize > h.lanes.len(), "interleaved as chosen")
            .label(stalls > 0, "interleaved by a time limit"))
    }
}


fn main() {
    jv::main(&[jv::reg::<S10>()])
}
