use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};
use jv::refhash::{self, Alg};
use jv::{ensure, ensure_eq, Info, Prop, Res, Sm, Tier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Message content.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fill {
    Byte(u8),
    Rand(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    len: usize,
    fill: Fill,
}

impl Msg {
    fn bytes(&self) -> Vec<u8> {
        match self.fill {
            Fill::Byte(b) => vec![b; self.len],
            Fill::Rand(s) => Sm(s).bytes(self.len),
        }
    }
}

/// Bytes at a chosen position relative to a 64-byte boundary of memory.
struct At(Vec<u8>, usize, usize);
impl At {
    fn new(b: &[u8], align: usize) -> At {
        let mut v = vec![0xa5u8; b.len() + 128];
        let start = (64 - v.as_ptr() as usize % 64) % 64 + align % 64;
        v[start..start + b.len()].copy_from_slice(b);
        At(v, start, b.len())
    }
}
impl std::ops::Deref for At {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0[self.1..self.1 + self.2]
    }
}

fn fill() -> impl Strategy<Value = Fill> {
    prop_oneof![
        1 => prop_oneof![Just(0u8), Just(0xff), Just(0x80), any::<u8>()].prop_map(Fill::Byte),
        3 => any::<u64>().prop_map(Fill::Rand),
    ]
}

/// Lengths around every boundary of a 64/128-byte block hash, plus arbitrary ones.
fn len(max: usize) -> impl Strategy<Value = usize> {
    prop_oneof![
        3 => 0usize..300,
        3 => (0usize..40, 0usize..20).prop_map(|(k, d)| (64 * k + d).saturating_sub(10)),
        2 => 0usize..4096,
        1 => 0usize..max,
    ]
}

fn msg(max: usize) -> impl Strategy<Value = Msg> {
    (len(max), fill()).prop_map(|(len, fill)| Msg { len, fill })
}

fn key(max: usize) -> BoxedStrategy<Vec<u8>> {
    let l = prop_oneof![2 => Just(0usize), 1 => Just(max), 1 => Just(1usize), 4 => 0..=max];
    (l, fill()).prop_map(|(len, fill)| Msg { len, fill }.bytes()).boxed()
}

fn outlen(max: usize) -> impl Strategy<Value = usize> {
    prop_oneof![2 => Just(max), 1 => Just(1usize), 4 => 1..=max]
}

fn b2b() -> BoxedStrategy<Alg> {
    (outlen(64), key(64)).prop_map(|(out, key)| Alg::B2b { out, key }).boxed()
}

fn b2s() -> BoxedStrategy<Alg> {
    (outlen(32), key(32)).prop_map(|(out, key)| Alg::B2s { out, key }).boxed()
}

fn any_alg() -> BoxedStrategy<Alg> {
    prop_oneof![Just(Alg::Md5), Just(Alg::Sha1), b2b(), b2s()].boxed()
}

enum Ctx {
    Unit,
    B(Blake2bContext),
    S(Blake2sContext),
}

fn ctx(a: &Alg) -> Ctx {
    match a {
        Alg::B2b { out, key } => Ctx::B(Blake2bContext { output_len: *out, key: key.clone() }),
        Alg::B2s { out, key } => Ctx::S(Blake2sContext { output_len: *out, key: key.clone() }),
        _ => Ctx::Unit,
    }
}

/// Bind `$H` to the implementation of `$alg` and `$c` to its context.
macro_rules! with_hash {
    ($alg:expr, $ctx:expr, |$H:ident, $c:ident| $body:expr) => {
        match ($alg, $ctx) {
            (Alg::Md5, _) => {
                type $H = MD5Hash;
                let $c = &();
                $body
            }
            (Alg::Sha1, _) => {
                type $H = SHA1Hash;
                let $c = &();
                $body
            }
            (Alg::B2b { .. }, Ctx::B($c)) => {
                type $H = Blake2b;
                $body
            }
            (Alg::B2s { .. }, Ctx::S($c)) => {
                type $H = Blake2s;
                $body
            }
            _ => unreachable!(),
        }
    };
}

fn real_digest(a: &Alg, m: &[u8]) -> Vec<u8> {
    with_hash!(a, &ctx(a), |H, c| H::digest_message(c, m).raw())
}

fn real_sizes(a: &Alg) -> (usize, usize) {
    with_hash!(a, &ctx(a), |H, c| (H::block_size(c), H::output_size(c)))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DCase {
    One(Alg, Msg),
    /// message of `mib` MiB plus `tail` bytes, fed in one call or in 1 MiB updates
    Huge { alg: Alg, mib: usize, tail: usize, fill: u8, once: bool },
    /// avalanche of one block position: message `m` with one bit flipped must match the reference too
    Flip(Alg, Msg, usize),
}

fn check_digest(c: &DCase) -> Res {
    match c {
        DCase::One(a, m) => {
            let b = m.bytes();
            // the message lies anywhere in memory
            let align = b.len() / 16 + b.first().map_or(0, |x| *x as usize);
            let got = real_digest(a, &At::new(&b, align));
            let want = refhash::digest(a, &b);
            ensure_eq!(hex(&got), hex(&want), "digest of {} bytes", b.len());
            ensure_eq!(real_sizes(a), (a.block(), a.out()), "(block size, output size)");
            let r = b.len() % a.block();
            Ok(Info::new(!b.is_empty())
                .label(r == 0, "len multiple of block")
                .label(r >= a.block() - 9 || r <= 1, "len within padding boundary")
                .label(b.len() > a.block(), "several blocks")
                .label(align % 4 != 0, "message not on a word boundary")
                .label(matches!(a, Alg::B2b { key, .. } | Alg::B2s { key, .. } if !key.is_empty()), "keyed"))
        }
        DCase::Flip(a, m, bit) => {
            let mut b = m.bytes();
            ensure!(!b.is_empty(), "bad case");
            let i = bit % (8 * b.len());
            b[i / 8] ^= 1 << (i % 8);
            ensure_eq!(hex(&real_digest(a, &At::new(&b, bit / 8))), hex(&refhash::digest(a, &b)), "digest after flipping bit {}", i);
            Ok(Info::new(true).label(true, "bit flip"))
        }
        DCase::Huge { alg, mib, tail, fill, once } => {
            let chunk = vec![*fill; 1 << 20];
            let (got, want) = std::thread::scope(|s| {
                let r = s.spawn(|| {
                    let mut st = refhash::Stream::new(alg);
                    for _ in 0..*mib {
                        st.update(&chunk);
                    }
                    st.update(&chunk[..*tail]);
                    st.finish()
                });
                let got = if *once {
                    // zero pages are shared, so this needs no physical memory
                    let big = vec![0u8; (mib << 20) + tail];
                    jv::no_panic(|| real_digest(alg, &big))
                } else {
                    jv::no_panic(|| {
                        with_hash!(alg, &ctx(alg), |H, c| {
                            let mut st = H::init_hash(c);
                            for _ in 0..*mib {
                                H::update_hash(&mut st, c, &chunk);
                            }
                            H::update_hash(&mut st, c, &chunk[..*tail]);
                            H::finish_hash(&mut st, c).raw()
                        })
                    })
                };
                (got, r.join().unwrap())
            });
            ensure_eq!(hex(&got?), hex(&want), "digest of {} MiB + {} bytes", mib, tail);
            Ok(Info::new(true).label(true, "longer than 2^32 bits").label(*mib >= 4096, "longer than 2^32 bytes"))
        }
    }
}

fn sweep(algs: &[Alg], max: usize, seed: u64) -> Vec<DCase> {
    let mut v = vec![];
    for a in algs {
        for len in 0..=max {
            v.push(DCase::One(a.clone(), Msg { len, fill: Fill::Rand(seed ^ len as u64) }));
        }
        for len in 0..=max.min(3 * a.block()) {
            v.push(DCase::One(a.clone(), Msg { len, fill: Fill::Byte(0xff) }));
            v.push(DCase::One(a.clone(), Msg { len, fill: Fill::Byte(0) }));
        }
    }
    v
}

fn digest_strategy(a: BoxedStrategy<Alg>) -> BoxedStrategy<DCase> {
    prop_oneof![
        5 => (a.clone(), msg(70_000)).prop_map(|(a, m)| DCase::One(a, m)),
        1 => (a, msg(300), any::<usize>()).prop_map(|(a, mut m, b)| { m.len += 1; DCase::Flip(a, m, b % 4096) }),
    ]
    .boxed()
}

const DRULE: &str = "Cases: every length of a contiguous range from 0 with random, all-zero and all-one content (BLAKE2: also the full key-length x output-length grid), messages longer than 2^32 bits fed at once or in 1 MiB updates, then random lengths (biased to block and padding boundaries, up to 70 kB) and contents, and single-bit flips. Oracle: independent implementation from the standard. Non-trivial: non-empty message; counted distinct by the whole case.";
const DASSUME: &[&str] = &["The reference implementations in harness/src/refhash.rs are right (cross-validated against Python hashlib by tools/crosscheck.py)."];

macro_rules! digest_prop {
    ($name:ident, $id:expr, $alg:expr, $strategy:expr, $extra:expr) => {
        struct $name;
        impl Prop for $name {
            type Case = DCase;
            const ID: &'static str = $id;
            const RULE: &'static str = DRULE;
            const ASSUMPTIONS: &'static [&'static str] = DASSUME;
            fn fixed(tier: Tier, seed: u64) -> Vec<DCase> {
                let algs: Vec<Alg> = $alg;
                let mut v: Vec<DCase> = $extra(tier);
                // huge cases first so that they overlap with the rest
                v.extend(sweep(&algs, tier.pick(2100, 20_000), seed));
                v
            }
            fn cases(tier: Tier) -> u32 {
                tier.pick(200_000, 5_000_000)
            }
            fn strategy(_: Tier) -> BoxedStrategy<DCase> {
                digest_strategy($strategy)
            }
            fn check(c: &DCase) -> Res {
                check_digest(c)
            }
        }
    };
}

fn huge(alg: Alg, tier: Tier) -> Vec<DCase> {
    let mut v = vec![
        DCase::Huge { alg: alg.clone(), mib: 512, tail: 3, fill: 0, once: true },
        DCase::Huge { alg: alg.clone(), mib: 4096, tail: 125, fill: 0x5a, once: false },
    ];
    if tier == Tier::Thorough {
        v.push(DCase::Huge { alg: alg.clone(), mib: 512, tail: 119, fill: 0x5a, once: false });
        v.push(DCase::Huge { alg: alg.clone(), mib: 4096, tail: 0, fill: 0, once: true });
        v.push(DCase::Huge { alg: alg.clone(), mib: 2048, tail: 55, fill: 0, once: true });
        v.push(DCase::Huge { alg, mib: 9000, tail: 64, fill: 0xff, once: false });
    }
    v
}

/// Every key length with every output length, with message lengths at the interesting places.
fn grid(max: usize, block: usize, mk: fn(usize, Vec<u8>) -> Alg) -> Vec<DCase> {
    let mut v = vec![];
    for kl in 0..=max {
        for out in 1..=max {
            for (i, len) in [0, 1, block - 1, block, block + 1, 2 * block, 3 * block + 5].iter().enumerate() {
                let k = Sm((kl * 131 + out) as u64).bytes(kl);
                v.push(DCase::One(mk(out, k), Msg { len: *len, fill: Fill::Rand((i + kl) as u64) }));
            }
        }
        // keys of zeros and ones, distinguishable from an absent key only by their length
        for b in [0u8, 0xff] {
            v.push(DCase::One(mk(max, vec![b; kl]), Msg { len: 0, fill: Fill::Byte(0) }));
            v.push(DCase::One(mk(max, vec![b; kl]), Msg { len: block, fill: Fill::Byte(b) }));
        }
    }
    v
}

digest_prop!(H01, "H01", vec![Alg::Md5], Just(Alg::Md5).boxed(), |t| huge(Alg::Md5, t));
digest_prop!(H02, "H02", vec![Alg::Sha1], Just(Alg::Sha1).boxed(), |t| huge(Alg::Sha1, t));
digest_prop!(
    H03,
    "H03",
    vec![Alg::B2b { out: 64, key: vec![] }, Alg::B2b { out: 20, key: (0..64).collect() }],
    b2b(),
    |t| {
        let mut v = huge(Alg::B2b { out: 64, key: vec![7] }, t);
        v.extend(grid(64, 128, |out, key| Alg::B2b { out, key }));
        v
    }
);
digest_prop!(
    H04,
    "H04",
    vec![Alg::B2s { out: 32, key: vec![] }, Alg::B2s { out: 20, key: (0..32).collect() }],
    b2s(),
    |t| {
        let mut v = huge(Alg::B2s { out: 32, key: vec![7] }, t);
        v.extend(grid(32, 64, |out, key| Alg::B2s { out, key }));
        v
    }
);

// ------------------------------------------------------------------------------------------------ H05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comp {
    /// index into the case's configurations; computations with the same index share one context object
    cfg: usize,
    msg: Msg,
    /// sizes of the updates, cut to the message; the rest is fed as the last update
    cuts: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChunkCase {
    cfgs: Vec<Alg>,
    comps: Vec<Comp>,
    /// order of steps: seed of the interleaving, 0 = one after the other
    order: u64,
}

enum St<'a> {
    M(<MD5Hash as HashFunction>::HashState),
    S1(<SHA1Hash as HashFunction>::HashState),
    B(<Blake2b as HashFunction>::HashState, &'a Blake2bContext),
    S(<Blake2s as HashFunction>::HashState, &'a Blake2sContext),
}

impl<'a> St<'a> {
    fn new(a: &Alg, c: &'a Ctx) -> Self {
        match (a, c) {
            (Alg::Md5, _) => St::M(MD5Hash::init_hash(&())),
            (Alg::Sha1, _) => St::S1(SHA1Hash::init_hash(&())),
            (_, Ctx::B(c)) => St::B(Blake2b::init_hash(c), c),
            (_, Ctx::S(c)) => St::S(Blake2s::init_hash(c), c),
            _ => unreachable!(),
        }
    }
    fn update(&mut self, d: &[u8]) {
        match self {
            St::M(s) => MD5Hash::update_hash(s, &(), d),
            St::S1(s) => SHA1Hash::update_hash(s, &(), d),
            St::B(s, c) => Blake2b::update_hash(s, c, d),
            St::S(s, c) => Blake2s::update_hash(s, c, d),
        }
    }
    fn finish(&mut self) -> Vec<u8> {
        match self {
            St::M(s) => MD5Hash::finish_hash(s, &()).raw(),
            St::S1(s) => SHA1Hash::finish_hash(s, &()).raw(),
            St::B(s, c) => Blake2b::finish_hash(s, c).raw(),
            St::S(s, c) => Blake2s::finish_hash(s, c).raw(),
        }
    }
}

struct H05;
impl Prop for H05 {
    type Case = ChunkCase;
    const ID: &'static str = "H05";
    const RULE: &'static str = "Cases: up to 4 computations over up to 3 (possibly shared) contexts of the four functions, each fed a message in generated updates (sizes 0, 1, around one/two blocks, arbitrary) with update and finish steps interleaved by a generated order; fixed part: every two-part split of every message up to 2 blocks + 6, every three-part split at block boundaries, and messages up to 70 kB in small and large updates. Oracle: one-shot reference digest of the concatenation, and the library's own one-shot digest. Non-trivial: some message is split into at least two non-empty updates.";
    const ASSUMPTIONS: &'static [&'static str] = DASSUME;
    fn fixed(tier: Tier, seed: u64) -> Vec<ChunkCase> {
        let mut v = vec![];
        for a in [
            Alg::Md5,
            Alg::Sha1,
            Alg::B2b { out: 64, key: vec![] },
            Alg::B2b { out: 33, key: vec![1; 64] },
            Alg::B2s { out: 32, key: vec![] },
            Alg::B2s { out: 17, key: vec![1; 32] },
        ] {
            let n = a.block();
            let one = |len: usize, cuts: Vec<usize>| ChunkCase {
                cfgs: vec![a.clone()],
                comps: vec![Comp { cfg: 0, msg: Msg { len, fill: Fill::Rand(seed) }, cuts }],
                order: 0,
            };
            for len in 0..=2 * n + 6 {
                for c in 0..=len {
                    v.push(one(len, vec![c]));
                }
            }
            // three-part splits of messages at boundaries, including empty updates
            for len in [0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 4 * n + 3] {
                for x in [0, 1, n / 2, n - 9, n - 8, n - 1, n, n + 1, 2 * n - 1, 2 * n, 3 * n] {
                    for y in [0, 1, n / 2, n - 1, n, n + 1, 2 * n, 3 * n] {
                        v.push(one(len, vec![x, y]));
                        v.push(one(len, vec![x, 0, y, 0]));
                    }
                }
            }
            for len in [4096usize, 65_536, 65_537 + n, 70_001] {
                for x in [1, n - 1, n, 1000, 4096, 32_768, 65_535, 65_536] {
                    v.push(one(len, vec![x]));
                    v.push(one(len, vec![n / 2, x, n - 1]));
                    v.push(one(len, vec![x; len / x.max(500) + 1]));
                }
            }
            for len in [n, 2 * n, 3 * n + 1, 200] {
                for k in 1..=tier.pick(8, n) {
                    v.push(one(len, vec![k; len / k + 2]));
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(1_500_000, 20_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<ChunkCase> {
        let cut = prop_oneof![
            2 => Just(0usize),
            2 => Just(1usize),
            3 => 0usize..20,
            3 => 55usize..75,
            2 => 119usize..138,
            3 => 0usize..260,
            1 => 0usize..1500,
        ];
        let cmsg = (
            prop_oneof![3 => 0usize..300, 3 => (0usize..9, 0usize..14).prop_map(|(k, d)| (64 * k + d).saturating_sub(7)), 1 => 0usize..3000],
            fill(),
        )
            .prop_map(|(len, fill)| Msg { len, fill });
        let comp = (0usize..3, cmsg, prop::collection::vec(cut, 0..10))
            .prop_map(|(cfg, msg, cuts)| Comp { cfg, msg, cuts });
        (prop::collection::vec(any_alg(), 1..4), prop::collection::vec(comp, 1..5), any::<u64>())
            .prop_map(|(cfgs, comps, order)| ChunkCase { cfgs, comps, order })
            .boxed()
    }
    fn check(c: &ChunkCase) -> Res {
        let ctxs: Vec<Ctx> = c.cfgs.iter().map(ctx).collect();
        let n = c.comps.len();
        // steps of each computation
        let datas: Vec<Vec<u8>> = c.comps.iter().map(|k| k.msg.bytes()).collect();
        let mut parts: Vec<Vec<(usize, usize)>> = vec![];
        let mut nontrivial = false;
        for (k, d) in c.comps.iter().zip(&datas) {
            let mut p = vec![];
            let mut pos = 0;
            for cut in &k.cuts {
                let e = (pos + cut).min(d.len());
                p.push((pos, e));
                pos = e;
            }
            if pos < d.len() {
                p.push((pos, d.len()));
            }
            nontrivial |= p.iter().filter(|(a, b)| a < b).count() >= 2;
            parts.push(p);
        }
        let mut sm = Sm(c.order);
        let mut states: Vec<Option<St>> = (0..n).map(|_| None).collect();
        let mut pos = vec![0usize; n];
        let mut live: Vec<usize> = (0..n).collect();
        let mut results: Vec<Vec<u8>> = vec![vec![]; n];
        while !live.is_empty() {
            let li = if c.order == 0 { 0 } else { sm.below(live.len() as u64) as usize };
            let i = live[li];
            let cfg = c.comps[i].cfg % c.cfgs.len();
            match &mut states[i] {
                None => states[i] = Some(St::new(&c.cfgs[cfg], &ctxs[cfg])),
                Some(st) => {
                    if pos[i] < parts[i].len() {
                        let (a, b) = parts[i][pos[i]];
                        // every other update comes from a place of its own
                        if (pos[i] + c.order as usize) % 2 == 0 {
                            st.update(&datas[i][a..b]);
                        } else {
                            st.update(&At::new(&datas[i][a..b], 3 * pos[i] + (c.order as usize >> 1) % 64));
                        }
                        pos[i] += 1;
                    } else {
                        results[i] = st.finish();
                        live.remove(li);
                    }
                }
            }
        }
        for i in 0..n {
            let a = &c.cfgs[c.comps[i].cfg % c.cfgs.len()];
            let want = refhash::digest(a, &datas[i]);
            ensure_eq!(hex(&results[i]), hex(&want), "computation {} ({} updates)", i, parts[i].len());
            ensure_eq!(hex(&real_digest(a, &datas[i])), hex(&want), "one-shot digest of computation {}", i);
        }
        let empties = parts.iter().flatten().any(|(a, b)| a == b);
        Ok(Info::new(nontrivial)
            .label(n > 1 && c.order != 0, "interleaved computations")
            .label(empties, "contains an empty update")
            .label(parts.iter().any(|p| p.len() >= 4), "four or more updates"))
    }
}

// ------------------------------------------------------------------------------------------------ H06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MacCase {
    alg: Alg,
    key: Msg,
    msg: Msg,
}

fn real_hmac(a: &Alg, k: &[u8], m: &[u8]) -> Vec<u8> {
    match (a, &ctx(a)) {
        (Alg::Md5, _) => hmac::<MD5Hash, ()>(&(), k, m),
        (Alg::Sha1, _) => hmac::<SHA1Hash, ()>(&(), k, m),
        (_, Ctx::B(c)) => hmac::<Blake2b, _>(c, k, m),
        (_, Ctx::S(c)) => hmac::<Blake2s, _>(c, k, m),
        _ => unreachable!(),
    }
}

fn mac_algs() -> Vec<Alg> {
    vec![
        Alg::Md5,
        Alg::Sha1,
        Alg::B2b { out: 64, key: vec![] },
        Alg::B2b { out: 20, key: vec![3; 9] },
        Alg::B2s { out: 32, key: vec![] },
        Alg::B2s { out: 5, key: vec![4; 32] },
    ]
}

struct H06;
impl Prop for H06 {
    type Case = MacCase;
    const ID: &'static str = "H06";
    const RULE: &'static str = "Cases: every key length 0..=2 blocks+10 for six hash configurations with several message lengths, every BLAKE2 output length with short, block-sized and long keys, then random configurations, keys (biased to the block boundary, up to 1000 bytes) and messages; a few keys and messages of 64 kB to 1 MB. Oracle: independent RFC 2104 implementation. Non-trivial: non-empty key and message.";
    const ASSUMPTIONS: &'static [&'static str] = DASSUME;
    fn fixed(tier: Tier, seed: u64) -> Vec<MacCase> {
        let mut v = vec![];
        for alg in mac_algs() {
            for kl in 0..=2 * alg.block() + 10 {
                let ms: Vec<usize> = tier.pick(vec![0, 1, 43, 55, 64, 128, 200], (0..260).collect());
                for ml in ms {
                    let key = Msg { len: kl, fill: Fill::Rand(seed ^ kl as u64) };
                    let msg = Msg { len: ml, fill: Fill::Rand(seed ^ 77) };
                    v.push(MacCase { alg: alg.clone(), key, msg });
                }
            }
        }
        for (i, alg) in mac_algs().into_iter().enumerate() {
            for (kl, ml) in [(20, 4096), (33, 65_536 - 64), (64, 65_600), (20, 70_000), (70_000, 33), (1 << 16, 1 << 16), (7, (1 << 20) + i)] {
                let key = Msg { len: kl, fill: Fill::Rand(seed ^ kl as u64) };
                let msg = Msg { len: ml, fill: Fill::Rand(seed ^ ml as u64) };
                v.push(MacCase { alg: alg.clone(), key, msg });
            }
        }
        for out in 1..=64usize {
            for kl in [0usize, 5, out, 63, 64, 65, 100, 127, 128, 129, 200] {
                for hk in [0usize, 1, 32] {
                    let key = Msg { len: kl, fill: Fill::Rand(5 + kl as u64) };
                    let msg = Msg { len: 40, fill: Fill::Byte(1) };
                    v.push(MacCase { alg: Alg::B2b { out, key: vec![9; hk] }, key: key.clone(), msg: msg.clone() });
                    if out <= 32 {
                        v.push(MacCase { alg: Alg::B2s { out, key: vec![9; hk] }, key, msg });
                    }
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(1_500_000, 15_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<MacCase> {
        let kl = prop_oneof![
            2 => 0usize..40,
            3 => 56usize..72,
            3 => 120usize..136,
            2 => 0usize..300,
            1 => 0usize..1000
        ];
        let key = (kl, fill()).prop_map(|(len, fill)| Msg { len, fill });
        let msg = prop_oneof![200 => msg(5000), 1 => msg(70_000)];
        (any_alg(), key, msg).prop_map(|(alg, key, msg)| MacCase { alg, key, msg }).boxed()
    }
    fn check(c: &MacCase) -> Res {
        let (k, m) = (c.key.bytes(), c.msg.bytes());
        let got = real_hmac(&c.alg, &At::new(&k, k.len() + m.len()), &At::new(&m, k.len() / 2 + m.len() / 7));
        ensure_eq!(hex(&got), hex(&refhash::hmac(&c.alg, &k, &m)), "HMAC, key {} bytes, message {}", k.len(), m.len());
        let n = c.alg.block();
        Ok(Info::new(!k.is_empty() && !m.is_empty())
            .label(k.len() > n, "key longer than block")
            .label(k.len() == n, "key exactly one block")
            .label(k.len() < n, "key shorter than block")
            .label(k.is_empty(), "empty key"))
    }
}

// ------------------------------------------------------------------------------------------------ H07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KdfCase {
    alg: Alg,
    salt: Msg,
    ikm: Msg,
    info: Msg,
    len: usize,
    /// a second, shorter request whose output must be a prefix (reduced modulo len+1)
    shorter: usize,
}

fn real_hkdf(a: &Alg, salt: &[u8], ikm: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    match (a, &ctx(a)) {
        (Alg::Md5, _) => hkdf_derive_key::<MD5Hash, ()>(&(), salt, ikm, n, info),
        (Alg::Sha1, _) => hkdf_derive_key::<SHA1Hash, ()>(&(), salt, ikm, n, info),
        (_, Ctx::B(c)) => hkdf_derive_key::<Blake2b, _>(c, salt, ikm, n, info),
        (_, Ctx::S(c)) => hkdf_derive_key::<Blake2s, _>(c, salt, ikm, n, info),
        _ => unreachable!(),
    }
}

struct H07;
impl Prop for H07 {
    type Case = KdfCase;
    const ID: &'static str = "H07";
    const RULE: &'static str = "Cases: every requested length 0..=255*HashLen for MD5, SHA-1 (thorough; quick: every length up to 300 and within 2 of every multiple of HashLen), BLAKE2 with several output lengths incl. 1, then random (salt, ikm, info, length) with a second shorter request. Oracle: independent RFC 5869 implementation, exact length, prefix relation. Non-trivial: length > 0.";
    const ASSUMPTIONS: &'static [&'static str] = DASSUME;
    fn fixed(tier: Tier, seed: u64) -> Vec<KdfCase> {
        let mut v = vec![];
        let mut algs = mac_algs();
        algs.push(Alg::B2s { out: 1, key: vec![] });
        algs.push(Alg::B2b { out: 1, key: vec![] });
        algs.push(Alg::B2b { out: 63, key: vec![] });
        for alg in algs.iter() {
            for (i, (a, b, c)) in [(70_000, 20, 10), (20, 70_000, 10), (20, 30, 70_000), (300, 5000, 1000), (5000, 300, 300)].into_iter().enumerate() {
                let m = |len, k| Msg { len, fill: Fill::Rand(seed ^ k) };
                v.push(KdfCase { alg: alg.clone(), salt: m(a, 1), ikm: m(b, 2), info: m(c, 3), len: 3 * alg.out() + i, shorter: i });
            }
        }
        for alg in algs {
            let h = alg.out();
            for len in 0..=255 * h {
                let near = len % h <= 1 || len % h == h - 1;
                if len <= 300 || tier == Tier::Thorough || near && (len / h < 8 || len / h > 250 || len / h % 16 == 0) {
                    v.push(KdfCase {
                        alg: alg.clone(),
                        salt: Msg { len: len % 90, fill: Fill::Rand(seed) },
                        ikm: Msg { len: len % 71, fill: Fill::Rand(seed + 1) },
                        info: Msg { len: len % 33, fill: Fill::Rand(seed + 2) },
                        len,
                        shorter: len / 2,
                    });
                }
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(100_000, 3_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<KdfCase> {
        let l = || prop_oneof![2 => Just(0usize), 4 => 0usize..40, 3 => 60usize..70, 2 => 120usize..140, 1 => 0usize..400];
        let m = move || (l(), fill()).prop_map(|(len, fill)| Msg { len, fill });
        // position within 0..=255*HashLen as a fraction or a multiple of HashLen plus an offset
        let want = prop_oneof![
            3 => (0usize..200).prop_map(|n| (n, 0usize)),
            3 => (1usize..=255, 0usize..3).prop_map(|(k, d)| (usize::MAX - k, d)),
            2 => (0usize..20_000).prop_map(|n| (n, 9)),
        ];
        (any_alg(), m(), m(), m(), want, any::<u16>())
            .prop_map(|(alg, salt, ikm, info, (n, d), s)| {
                let h = alg.out();
                let max = 255 * h;
                let len = if n > usize::MAX / 2 {
                    ((usize::MAX - n) * h + d).saturating_sub(1).min(max)
                } else {
                    n % (max + 1)
                };
                KdfCase { alg, salt, ikm, info, len, shorter: s as usize % (len + 1) }
            })
            .boxed()
    }
    fn check(c: &KdfCase) -> Res {
        let (s, k, i) = (c.salt.bytes(), c.ikm.bytes(), c.info.bytes());
        let got = real_hkdf(&c.alg, &At::new(&s, c.len), &At::new(&k, c.len + s.len()), &At::new(&i, k.len()), c.len);
        ensure_eq!(got.len(), c.len, "length of the derived key");
        ensure_eq!(hex(&got), hex(&refhash::hkdf(&c.alg, &s, &k, &i, c.len)), "HKDF output of {} bytes", c.len);
        let n = c.shorter % (c.len + 1);
        let short = real_hkdf(&c.alg, &s, &k, &i, n);
        ensure_eq!(hex(&short), hex(&got[..n]), "request of {} bytes as prefix of {}", n, c.len);
        let h = c.alg.out();
        Ok(Info::new(c.len > 0)
            .label(c.len > h, "several expand rounds")
            .label(c.len % h != 0, "not a multiple of HashLen")
            .label(c.len > 250 * h, "close to the maximum"))
    }
}

/// Print reference results for tools/crosscheck.py.
fn refdump() {
    let mut sm = Sm(4242);
    for i in 0..4000usize {
        let m = { let n = if i < 600 { i } else { sm.below(3000) as usize }; sm.bytes(n) };
        let alg = match i % 4 {
            0 => Alg::Md5,
            1 => Alg::Sha1,
            2 => { let (o, k) = (1 + sm.below(64) as usize, sm.below(65) as usize); Alg::B2b { out: o, key: sm.bytes(k) } }
            _ => { let (o, k) = (1 + sm.below(32) as usize, sm.below(33) as usize); Alg::B2s { out: o, key: sm.bytes(k) } }
        };
        let k = { let n = sm.below(300) as usize; sm.bytes(n) };
        let n = sm.below(255 * alg.out() as u64 + 1) as usize;
        let (hk, name) = match &alg {
            Alg::Md5 => (vec![], "md5"),
            Alg::Sha1 => (vec![], "sha1"),
            Alg::B2b { key, .. } => (key.clone(), "blake2b"),
            Alg::B2s { key, .. } => (key.clone(), "blake2s"),
        };
        println!("{}", serde_json::json!({
            "alg": name, "out": alg.out(), "hkey": hex(&hk), "msg": hex(&m), "key": hex(&k), "n": n,
            "digest": hex(&refhash::digest(&alg, &m)), "hmac": hex(&refhash::hmac(&alg, &k, &m)),
            "hkdf": hex(&refhash::hkdf(&alg, &k, &m, &k, n))}));
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("refdump") {
        return refdump();
    }
    jv::main(&[
        jv::reg::<H01>(),
        jv::reg::<H02>(),
        jv::reg::<H03>(),
        jv::reg::<H04>(),
        jv::reg::<H05>(),
        jv::reg::<H06>(),
        jv::reg::<H07>(),
    ])
}
