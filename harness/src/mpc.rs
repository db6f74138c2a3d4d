//! A simulated network of parties running the sharing protocols, with a scheduler that decides the order in which
//! parties run and messages arrive, and reference sharing arithmetic over plain integers.

use crate::field::*;
use crate::{mix, Sm};
use futures::task::{waker, ArcWake};
use futures::Future;
use jester_maths::prime::PrimeField;
use jester_sharing::beaver_randomization_multiplication::{
    BeaverCommunicationScheme, BeaverRerandomizationMultiplication,
};
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use num::{One, Zero};
use num_bigint::BigUint;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use proptest::prelude::{any, prop, prop_oneof, BoxedStrategy, Just, Strategy};
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

// ------------------------------------------------------------------------------------------------ reference

/// Value at `x` of the polynomial through `points`.
pub fn interpolate(points: &[(usize, BigUint)], x: usize, p: &BigUint) -> BigUint {
    let c = lagrange(&points.iter().map(|q| q.0).collect::<Vec<_>>(), x, p);
    combine(&c, points, p)
}

fn combine(c: &[BigUint], points: &[(usize, BigUint)], p: &BigUint) -> BigUint {
    c.iter().zip(points).fold(BigUint::zero(), |a, (c, (_, y))| (a + c * y) % p)
}

/// Coefficients of the value at `x` in terms of the values at `at`.
pub fn lagrange(at: &[usize], x: usize, p: &BigUint) -> Vec<BigUint> {
    let diff = |a: usize, b: usize| (BigUint::from(a) + p - BigUint::from(b) % p) % p;
    at.iter()
        .map(|i| {
            let (mut n, mut d) = (BigUint::one(), BigUint::one());
            for j in at.iter().filter(|j| *j != i) {
                n = n * diff(x, *j) % p;
                d = d * diff(*i, *j) % p;
            }
            n * inv_ref(&d, p) % p
        })
        .collect()
}

/// Whether all shares lie on one polynomial of degree below `t`; its value at zero.
pub struct Lines {
    pub p: BigUint,
    n: usize,
    t: usize,
    /// coefficients for point 0 and for points t+1..=n, from points 1..=t
    coeff: Vec<(usize, Vec<BigUint>)>,
}

impl Lines {
    pub fn new(n: usize, t: usize, p: &BigUint) -> Self {
        let base: Vec<usize> = (1..=t).collect();
        let mut coeff = vec![(0, lagrange(&base, 0, p))];
        for x in t + 1..=n {
            coeff.push((x, lagrange(&base, x, p)));
        }
        Lines { p: p.clone(), n, t, coeff }
    }

    /// Value shared by `shares` (one per party, in order of parties), or what is wrong with them.
    pub fn open(&self, shares: &[(usize, BigUint)]) -> Result<BigUint, String> {
        if shares.len() != self.n || shares.iter().enumerate().any(|(i, s)| s.0 != i + 1) {
            return Err(format!(
                "not one share per party: {:?}",
                shares.iter().map(|s| s.0).collect::<Vec<_>>()
            ));
        }
        if let Some(s) = shares.iter().find(|s| s.1 >= self.p) {
            return Err(format!("share of party {} is not a canonical field member", s.0));
        }
        for (x, c) in &self.coeff[1..] {
            let v = combine(c, &shares[..self.t], &self.p);
            if v != shares[x - 1].1 {
                return Err(format!(
                    "the shares do not lie on one polynomial of degree {} (threshold {})",
                    self.t - 1,
                    self.t
                ));
            }
        }
        Ok(combine(&self.coeff[0].1, &shares[..self.t], &self.p))
    }
}

/// Reference sharing.
pub fn share_ref(secret: &BigUint, n: usize, t: usize, p: &BigUint, rng: &mut Sm) -> Vec<(usize, BigUint)> {
    let c: Vec<BigUint> = (1..t).map(|_| below(p, rng)).collect();
    (1..=n)
        .map(|x| {
            let mut y = BigUint::zero();
            for c in c.iter().rev() {
                y = (y + c) * BigUint::from(x) % p;
            }
            (x, (y + secret) % p)
        })
        .collect()
}

/// Reference sharing over a peculiar polynomial: constant, with a single coefficient, with roots at parties' points
/// (so that their shares are zero), with all coefficients alike, or an ordinary one.
pub fn share_odd(secret: &BigUint, n: usize, t: usize, p: &BigUint, rng: &mut Sm) -> Vec<(usize, BigUint)> {
    let mut fixed: Vec<(usize, BigUint)> = vec![(0, secret.clone())];
    match rng.next() % 6 {
        // a constant
        0 => (1..t).for_each(|x| fixed.push((x, secret.clone()))),
        // the shares of the first parties, or of the last ones, are chosen
        k @ 1..=3 => {
            for i in 1..t {
                let x = if k == 2 { n + 1 - i } else { i };
                let v = match rng.next() % 4 {
                    0 | 1 => BigUint::zero(),
                    2 => BigUint::one(),
                    _ => below(p, rng),
                };
                fixed.push((x, v));
            }
        }
        // all but one coefficient are zero
        4 => {
            let (d, c) = (1 + rng.next() as usize % (t - 1).max(1), nonzero(p, rng));
            return (1..=n).map(|x| (x, (secret + if t > 1 { &c * BigUint::from(x).modpow(&BigUint::from(d), p) } else { BigUint::zero() }) % p)).collect();
        }
        _ => return share_ref(secret, n, t, p, rng),
    }
    (1..=n).map(|x| (x, interpolate(&fixed, x, p))).collect()
}

pub fn below(p: &BigUint, rng: &mut Sm) -> BigUint {
    if p.bits() <= 32 {
        return BigUint::from(rng.next() as u128 as u64 % low64(p));
    }
    BigUint::from_bytes_le(&rng.bytes((p.bits() + 7) / 8 + 9)) % p
}

pub fn nonzero(p: &BigUint, rng: &mut Sm) -> BigUint {
    loop {
        let v = below(p, rng);
        if !v.is_zero() {
            return v;
        }
    }
}

pub fn low64(p: &BigUint) -> u64 {
    p.to_bytes_le().iter().take(8).rev().fold(0u64, |a, b| a << 8 | *b as u64)
}

/// The `k`-th dealt random number asked for by a program (not by a protocol).
pub fn program_number(seed: u64, k: usize, p: &BigUint) -> BigUint {
    nonzero(p, &mut Sm(mix(mix(seed) ^ (0x9000_0000 + k as u64))))
}

// ------------------------------------------------------------------------------------------------ helpers

/// The scheme under test, on its own.
pub struct Shamir<F>(PhantomData<F>);
impl<F: PrimeField> ShamirSecretSharingScheme<F> for Shamir<F> {}

pub fn small(p: &BigUint) -> Option<usize> {
    if p.bits() <= 20 {
        Some(low64(p) as usize)
    } else {
        None
    }
}

/// Number of parties and threshold that the field admits.
pub fn shape(n: usize, t: usize, p: &BigUint) -> (usize, usize) {
    let n = n.max(2).min(small(p).map_or(usize::MAX, |p| p - 1));
    (n, 2 + t % (n - 1))
}

pub fn uints<F: PrimeField>(shares: &[(usize, F)]) -> Vec<(usize, BigUint)> {
    shares.iter().map(|(x, y)| (*x, y.as_uint())).collect()
}

pub fn hex(v: &BigUint) -> String {
    format!("0x{:x}", v)
}

pub fn linear_ins() -> BoxedStrategy<Ins> {
    let r = any::<u16>;
    prop_oneof![
        3 => (r(), r()).prop_map(|(a, b)| Ins::Add(a, b)),
        3 => (r(), r()).prop_map(|(a, b)| Ins::Sub(a, b)),
        2 => (r(), el()).prop_map(|(a, k)| Ins::AddScalar(a, k)),
        2 => (r(), el()).prop_map(|(a, k)| Ins::SubScalar(a, k)),
        2 => (r(), el()).prop_map(|(a, k)| Ins::MulScalar(a, k)),
        2 => prop::collection::vec(r(), 1..9).prop_map(Ins::Sum),
    ]
    .boxed()
}


// ------------------------------------------------------------------------------------------------ network

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Slot {
    Reveal(usize),
    Distribute(usize),
    Triples(usize),
    Dealt(bool, usize),
}

struct Message<F> {
    from: usize,
    to: usize,
    slot: Slot,
    load: Vec<(usize, F)>,
}

/// How messages are posted and delivered and parties polled.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    /// 0: everything in order, 1: latest first, 2: random, 3: lock step, 4: one party is starved,
    /// 5: one party runs ahead, 6: random with spurious polls
    pub kind: u8,
    pub seed: u64,
    /// messages leave only when the future of the call is first polled
    pub lazy: bool,
}

/// Fields used on the simulated network.
pub const NET: [usize; 13] = [0, 15, 1, 16, 17, 3, 6, 7, 20, 8, 10, 21, 11];

#[macro_export]
macro_rules! with_net {
    ($id:expr, |$F:ident| $body:expr) => {{
        use jester_maths::prime::*;
        use $crate::field as jvf;
        match $id {
            0 => { type $F = Mersenne2; $body }
            1 => { type $F = Mersenne3; $body }
            3 => { type $F = Mersenne13; $body }
            6 => { type $F = Mersenne31; $body }
            7 => { type $F = Mersenne61; $body }
            8 => { type $F = Mersenne89; $body }
            10 => { type $F = Mersenne127; $body }
            11 => { type $F = IetfGroup1; $body }
            15 => { type $F = jvf::User5; $body }
            16 => { type $F = jvf::User11; $body }
            17 => { type $F = jvf::User257; $body }
            20 => { type $F = jvf::User2p64p13; $body }
            21 => { type $F = jvf::UserSecp; $body }
            other => return Err(format!("no field {} on the network", other)),
        }
    }};
}

pub fn net_field() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => proptest::sample::select(vec![0usize, 15, 1, 16, 17, 3, 6]),
        3 => proptest::sample::select(vec![7usize, 7, 21, 10, 20, 8]),
        1 => Just(11usize),
    ]
    .boxed()
}

pub fn sched() -> BoxedStrategy<Sched> {
    (prop_oneof![1 => 0u8..2, 4 => Just(2u8), 1 => 3u8..6, 2 => Just(6u8)], any::<u64>(), any::<bool>())
        .prop_map(|(kind, seed, lazy)| Sched { kind, seed, lazy })
        .boxed()
}

pub struct Net<F> {
    pub p: BigUint,
    seed: u64,
    pub n: usize,
    pub t: usize,
    lines: Lines,
    lazy: bool,
    /// share and open with the library's own functions instead of the reference
    library: bool,
    posted: Vec<Message<F>>,
    inbox: HashMap<(usize, Slot), Vec<(usize, Vec<(usize, F)>)>>,
    wakers: HashMap<(usize, Slot), Waker>,
    shuffle: Sm,
    dealer: Sm,
    /// extreme triples (zero or one factors) instead of uniform ones
    odd_triples: bool,
    triples: Vec<[Vec<(usize, BigUint)>; 3]>,
    dealt: [Vec<(BigUint, Vec<(usize, BigUint)>)>; 2],
    /// opened values by call number
    pub opened: BTreeMap<usize, BigUint>,
    pub fault: Option<String>,
    /// contributions to jointly generated numbers: per distribution, per party
    pub contributed: BTreeMap<usize, Vec<Option<BigUint>>>,
    pub reveals: Vec<usize>,
    pub distributes: Vec<usize>,
    pub triple_use: Vec<usize>,
    /// communication calls of every party: kind, count, lock-step round
    pub trace: Vec<Vec<(char, usize, usize)>>,
    pub round: usize,
    /// round in which every party first waited for the answer to a call
    pub awaited: Vec<BTreeMap<Slot, usize>>,
    /// which distributions belong to random-number instructions of the program
    pub program_rands: Vec<Vec<Vec<usize>>>,
}

impl<F: PrimeField> Net<F> {
    fn triple(&mut self, k: usize) {
        while self.triples.len() <= k {
            let p = self.p.clone();
            let (a, b) = if self.odd_triples {
                let pick = |s: &mut Sm| match s.next() % 4 {
                    0 => BigUint::zero(),
                    1 => BigUint::one(),
                    2 => &p - 1u32,
                    _ => below(&p, s),
                };
                (pick(&mut self.dealer), pick(&mut self.dealer))
            } else {
                (below(&p, &mut self.dealer), below(&p, &mut self.dealer))
            };
            let c = &a * &b % &p;
            let odd = self.odd_triples && self.dealer.next() % 2 == 0;
            let deal = if odd { share_odd } else { share_ref };
            let [x, y, z] = [a, b, c].map(|v| deal(&v, self.n, self.t, &p, &mut self.dealer));
            self.triples.push([x, y, z]);
        }
    }

    fn deal(&mut self, program: bool, k: usize) {
        while self.dealt[program as usize].len() <= k {
            // program numbers and masks come from separate streams, masks are never zero
            let v = if program {
                program_number(self.seed, self.dealt[1].len(), &self.p)
            } else {
                nonzero(&self.p, &mut self.dealer)
            };
            let s = share_ref(&v, self.n, self.t, &self.p, &mut self.dealer);
            self.dealt[program as usize].push((v, s));
        }
    }

    fn deliver(&mut self, i: usize) {
        let m = self.posted.remove(i);
        self.put(m);
    }

    fn put(&mut self, m: Message<F>) {
        self.inbox.entry((m.to, m.slot)).or_default().push((m.from, m.load));
        if let Some(w) = self.wakers.remove(&(m.to, m.slot)) {
            w.wake();
        }
    }
}

/// Future of one communication step.
struct Step<F: PrimeField> {
    net: Arc<Mutex<Net<F>>>,
    me: usize,
    slot: Slot,
    need: usize,
    outgoing: Vec<Message<F>>,
}

impl<F: PrimeField> Step<F> {
    fn post(&mut self) {
        let mut net = self.net.lock().unwrap();
        for m in self.outgoing.drain(..) {
            if m.to == self.me && m.from == self.me {
                net.put(m);
            } else {
                net.posted.push(m);
            }
        }
    }
}

impl<F: PrimeField + Unpin> Future for Step<F> {
    type Output = Vec<(usize, Vec<(usize, F)>)>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        self.post();
        let key = (self.me, self.slot);
        let mut net = self.net.lock().unwrap();
        let round = net.round;
        net.awaited[self.me - 1].entry(self.slot).or_insert(round);
        if net.inbox.get(&key).map_or(0, |v| v.len()) >= self.need {
            Poll::Ready(net.inbox.remove(&key).unwrap())
        } else {
            net.wakers.insert(key, cx.waker().clone());
            Poll::Pending
        }
    }
}

/// One party. `dealt`: jointly generated numbers come from a dealer (never zero) instead of the library's protocol.
pub struct Party<F: PrimeField> {
    dealt: bool,
    /// 1-based
    pub id: usize,
    net: Arc<Mutex<Net<F>>>,
    coins: Sm,
    program: bool,
    asked: [usize; 2],
}

pub trait FieldBounds: PrimeField + Send + Sync + Unpin + 'static {}
impl<F: PrimeField + Send + Sync + Unpin + 'static> FieldBounds for F {}

impl<F: FieldBounds> Party<F> {
    fn note(&self, what: char, count: usize) {
        let mut net = self.net.lock().unwrap();
        let round = net.round;
        net.trace[self.id - 1].push((what, count, round));
    }
    fn step(&self, slot: Slot, need: usize, outgoing: Vec<Message<F>>) -> Step<F> {
        let lazy = self.net.lock().unwrap().lazy;
        let mut s = Step { net: self.net.clone(), me: self.id, slot, need, outgoing };
        if !lazy {
            s.post();
        }
        s
    }
}

impl<F: FieldBounds> ShamirSecretSharingScheme<F> for Party<F> {}

impl<F: FieldBounds> CliqueCommunicationScheme<F, (usize, F)> for Party<F> {
    fn reveal_shares(&mut self, share: (usize, F)) -> Pin<Box<dyn Future<Output = F> + Send>> {
        self.note('o', 1);
        let (k, n) = {
            let mut net = self.net.lock().unwrap();
            let k = net.reveals[self.id - 1];
            net.reveals[self.id - 1] += 1;
            (k, net.n)
        };
        let slot = Slot::Reveal(k);
        let out = (1..=n).map(|to| Message { from: self.id, to, slot, load: vec![share.clone()] }).collect();
        let step = self.step(slot, n, out);
        let net = self.net.clone();
        Box::pin(async move {
            let mut got = step.await;
            let arrived: Vec<(usize, F)> = got.iter().map(|g| g.1[0].clone()).collect();
            got.sort_by_key(|g| g.0);
            let shares: Vec<(usize, BigUint)> = got.iter().map(|g| (g.1[0].0, g.1[0].1.as_uint())).collect();
            let mut net = net.lock().unwrap();
            if net.library {
                let v = <Self as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(&arrived, net.t);
                if let Err(e) = net.lines.open(&shares) {
                    net.fault.get_or_insert(format!("opening number {}: {}", k, e));
                }
                net.opened.insert(k, v.as_uint());
                return v;
            }
            if let Some(v) = net.opened.get(&k) {
                return v.clone().into();
            }
            let v = match net.lines.open(&shares) {
                Ok(v) => v,
                Err(e) => {
                    let e = format!("opening number {}: {}", k, e);
                    net.fault.get_or_insert(e);
                    BigUint::one()
                }
            };
            net.opened.insert(k, v.clone());
            v.into()
        })
    }

    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<(usize, F)>> + Send>> {
        self.note('d', 1);
        let v = secret.as_uint();
        let (k, shares, n) = {
            let mut net = self.net.lock().unwrap();
            let k = net.distributes[self.id - 1];
            net.distributes[self.id - 1] += 1;
            let n = net.n;
            net.contributed.entry(k).or_insert_with(|| vec![None; n])[self.id - 1] = Some(v.clone());
            if self.program {
                net.program_rands[self.id - 1].last_mut().unwrap().push(k);
            }
            let (t, p) = (net.t, net.p.clone());
            let shares: Vec<(usize, F)> = if net.library {
                let mut rng = DetRng::new(self.coins.next());
                <Self as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(&mut rng, &secret, n, t)
            } else {
                share_ref(&v, n, t, &p, &mut self.coins).into_iter().map(|(x, y)| (x, F::from(y))).collect()
            };
            (k, shares, n)
        };
        let slot = Slot::Distribute(k);
        let out = shares
            .into_iter()
            .map(|(to, y)| Message { from: self.id, to, slot, load: vec![(to, y)] })
            .collect();
        let step = self.step(slot, n, out);
        Box::pin(async move { step.await.into_iter().map(|mut g| g.1.pop().unwrap()).collect() })
    }
}

impl<F: FieldBounds> BeaverCommunicationScheme<(usize, F)> for Party<F> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.net.lock().unwrap().t
    }

    fn obtain_beaver_triples<'a>(
        &'a mut self,
        count: usize,
    ) -> Pin<Box<dyn Future<Output = Vec<((usize, F), (usize, F), (usize, F))>> + Send + 'a>> {
        self.note('t', count);
        let (k, load) = {
            let mut net = self.net.lock().unwrap();
            let k = net.triple_use[self.id - 1];
            net.triple_use[self.id - 1] += count;
            let mut load = vec![];
            for i in k..k + count {
                net.triple(i);
                for j in 0..3 {
                    let (x, y) = net.triples[i][j][self.id - 1].clone();
                    load.push((x, F::from(y)));
                }
            }
            (k, load)
        };
        // calls for no triples need a slot of their own
        let slot = if count > 0 { Slot::Triples(2 * k) } else { Slot::Triples(2 * k + 1) };
        let step = self.step(slot, 1, vec![Message { from: 0, to: self.id, slot, load }]);
        Box::pin(async move {
            let mut it = step.await.pop().unwrap().1.into_iter();
            let mut v = vec![];
            while let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) {
                v.push((a, b, c));
            }
            v
        })
    }
}

macro_rules! delegate {
    ($tr:ident, $marker:ident, $del:ident, $to:ident) => {
        impl<F: PrimeField> $marker for Party<F> {
            type Marker = Delegate;
        }
        impl<F: FieldBounds> $del<F, (usize, F), Party<F>> for Party<F>
        where
            Party<F>: RandomNumberGenerationScheme<F, (usize, F), Party<F>>,
        {
            type Delegate = $to<F, (usize, F), Party<F>>;
        }
    };
}

delegate!(MultiplicationScheme, MultiplicationSchemeMarker, MultiplicationSchemeDelegate, BeaverRerandomizationMultiplication);
delegate!(UnboundedMultiplicationScheme, UnboundedMultiplicationSchemeMarker, UnboundedMultiplicationSchemeDelegate, BeaverRerandomizationMultiplication);
delegate!(InversionScheme, InversionSchemeMarker, InversionSchemeDelegate, JointUnboundedInversion);
delegate!(UnboundedInversionScheme, UnboundedInversionSchemeMarker, UnboundedInversionSchemeDelegate, JointUnboundedInversion);
delegate!(OrFunctionScheme, OrFunctionSchemeMarker, OrFunctionSchemeDelegate, JointUnboundedOrFunction);
delegate!(UnboundedOrFunctionScheme, UnboundedOrFunctionSchemeMarker, UnboundedOrFunctionSchemeDelegate, JointUnboundedOrFunction);
delegate!(ConditionalSelectionScheme, ConditionalSelectionSchemeMarker, ConditionalSelectionSchemeDelegate, JointConditionalSelection);

pub struct Dealer;

impl<F: PrimeField> RandomNumberGenerationSchemeMarker for Party<F> {
    type Marker = Dealer;
}
impl<F: FieldBounds> RandomNumberGenerationSchemeImpl<F, (usize, F), Party<F>, Dealer> for Party<F> {
    fn generate_random_number_sharing<R>(
        rng: &mut R,
        protocol: &mut Party<F>,
    ) -> Pin<Box<dyn Future<Output = (usize, F)> + Send>>
    where
        R: RngCore + CryptoRng,
    {
        if !protocol.dealt {
            return SumRandomNumberGeneration::<F, (usize, F), Party<F>>::generate_random_number_sharing(rng, protocol);
        }
        protocol.note('r', 1);
        let which = protocol.program;
        let k = protocol.asked[which as usize];
        protocol.asked[which as usize] += 1;
        let share = {
            let mut net = protocol.net.lock().unwrap();
            net.deal(which, k);
            let (x, y) = net.dealt[which as usize][k].1[protocol.id - 1].clone();
            (x, F::from(y))
        };
        let slot = Slot::Dealt(which, k);
        let step = protocol.step(slot, 1, vec![Message { from: 0, to: protocol.id, slot, load: vec![share] }]);
        Box::pin(async move { step.await.pop().unwrap().1.pop().unwrap() })
    }
}

// ------------------------------------------------------------------------------------------------ programs

/// One instruction; operands are register numbers (taken modulo the number of registers), every result is appended.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ins {
    Add(u16, u16),
    Sub(u16, u16),
    AddScalar(u16, El),
    SubScalar(u16, El),
    MulScalar(u16, El),
    Sum(Vec<u16>),
    Mul(u16, u16),
    MulBatch(Vec<(u16, u16)>),
    Inv(u16),
    InvBatch(Vec<u16>),
    Or1(u16),
    Or(Vec<u16>),
    /// condition, if one, if zero
    Select(u16, u16, u16),
    Rand,
    /// several at once
    Rands(u8),
}

/// The same with resolved operands.
#[derive(Clone, Debug)]
pub enum Op<F> {
    Add(usize, usize),
    Sub(usize, usize),
    AddScalar(usize, F),
    SubScalar(usize, F),
    MulScalar(usize, F),
    Sum(Vec<usize>),
    Mul(usize, usize),
    MulBatch(Vec<(usize, usize)>),
    Inv(usize),
    InvBatch(Vec<usize>),
    Or1(usize),
    Or(Vec<usize>),
    Select(usize, usize, usize),
    Rand,
    Rands(usize),
}

type Sh<F> = (usize, F);

pub trait Runs<F: FieldBounds>:
    MultiplicationScheme<F, Sh<F>, Self>
    + UnboundedMultiplicationScheme<F, Sh<F>, Self>
    + InversionScheme<F, Sh<F>, Self>
    + UnboundedInversionScheme<F, Sh<F>, Self>
    + OrFunctionScheme<F, Sh<F>, Self>
    + UnboundedOrFunctionScheme<F, Sh<F>, Self>
    + ConditionalSelectionScheme<F, Sh<F>, Self>
    + RandomNumberGenerationScheme<F, Sh<F>, Self>
    + LinearSharingScheme<F, Sh<F>>
    + CliqueCommunicationScheme<F, Sh<F>>
    + BeaverCommunicationScheme<Sh<F>>
    + Send
    + Sync
    + Sized
    + 'static
{
    fn make(id: usize, net: Arc<Mutex<Net<F>>>, coins: Sm, dealt: bool) -> Self;
    fn program_on(&mut self);
    fn program_off(&mut self);
}

impl<F: FieldBounds> Runs<F> for Party<F> {
    fn make(id: usize, net: Arc<Mutex<Net<F>>>, coins: Sm, dealt: bool) -> Self {
        Party { dealt, id, net, coins, program: false, asked: [0, 0] }
    }
    fn program_on(&mut self) {
        self.program = true;
        self.net.lock().unwrap().program_rands[self.id - 1].push(vec![]);
    }
    fn program_off(&mut self) {
        self.program = false;
    }
}

/// Await a call, possibly letting others run between the call and the first poll of its future.
async fn held<T>(gap: bool, call: impl Future<Output = T>) -> T {
    if gap {
        let mut first = true;
        futures::future::poll_fn(move |cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await;
    }
    call.await
}

async fn execute<F: FieldBounds, P: Runs<F>>(mut party: P, mut rng: DetRng, mut regs: Vec<Sh<F>>, ops: Arc<Vec<Op<F>>>, gap: bool) -> Vec<Sh<F>> {
    for op in ops.iter() {
        match op {
            Op::Add(a, b) => {
                let v = P::add_shares(&regs[*a], &regs[*b]);
                regs.push(v)
            }
            Op::Sub(a, b) => {
                let v = P::sub_shares(&regs[*a], &regs[*b]);
                regs.push(v)
            }
            Op::AddScalar(a, k) => {
                let v = P::add_scalar(&regs[*a], k);
                regs.push(v)
            }
            Op::SubScalar(a, k) => {
                let v = P::sub_scalar(&regs[*a], k);
                regs.push(v)
            }
            Op::MulScalar(a, k) => {
                let v = P::multiply_scalar(&regs[*a], k);
                regs.push(v)
            }
            Op::Sum(v) => {
                let v: Vec<_> = v.iter().map(|i| regs[*i].clone()).collect();
                regs.push(P::sum_shares(&v).expect("sum of shares"))
            }
            Op::Mul(a, b) => {
                let v = held(gap, <P as MultiplicationScheme<F, Sh<F>, P>>::multiply(&mut party, &regs[*a], &regs[*b])).await;
                regs.push(v)
            }
            Op::MulBatch(v) => {
                let v: Vec<_> = v.iter().map(|(a, b)| (regs[*a].clone(), regs[*b].clone())).collect();
                let out = held(gap, <P as UnboundedMultiplicationScheme<F, Sh<F>, P>>::unbounded_multiply(&mut party, &v)).await;
                assert_eq!(out.len(), v.len(), "number of products");
                regs.extend(out)
            }
            Op::Inv(a) => {
                let v = held(gap, <P as InversionScheme<F, Sh<F>, P>>::inverse(&mut rng, &mut party, &regs[*a])).await;
                regs.push(v)
            }
            Op::InvBatch(v) => {
                let v: Vec<_> = v.iter().map(|a| regs[*a].clone()).collect();
                let out = held(gap, <P as UnboundedInversionScheme<F, Sh<F>, P>>::unbounded_inverse(&mut rng, &mut party, &v)).await;
                assert_eq!(out.len(), v.len(), "number of inverses");
                regs.extend(out)
            }
            Op::Or1(a) => {
                let v = held(gap, <P as OrFunctionScheme<F, Sh<F>, P>>::shared_or(&mut rng, &mut party, &regs[*a])).await;
                regs.push(v)
            }
            Op::Or(v) => {
                let v: Vec<_> = v.iter().map(|a| regs[*a].clone()).collect();
                let out = held(gap, <P as UnboundedOrFunctionScheme<F, Sh<F>, P>>::unbounded_shared_or(&mut rng, &mut party, &v)).await;
                regs.push(out)
            }
            Op::Select(c, a, b) => {
                let v = held(gap, <P as ConditionalSelectionScheme<F, Sh<F>, P>>::joint_conditional_selection(
                    &mut party, &regs[*c], &regs[*a], &regs[*b],
                )).await;
                regs.push(v)
            }
            Op::Rand => {
                party.program_on();
                let f = <P as RandomNumberGenerationScheme<F, Sh<F>, P>>::generate_random_number_sharing(
                    &mut rng, &mut party,
                );
                party.program_off();
                regs.push(held(gap, f).await)
            }
            Op::Rands(k) => {
                let mut all = vec![];
                for _ in 0..*k {
                    party.program_on();
                    all.push(<P as RandomNumberGenerationScheme<F, Sh<F>, P>>::generate_random_number_sharing(
                        &mut rng, &mut party,
                    ));
                    party.program_off();
                }
                regs.extend(held(gap, futures::future::join_all(all)).await)
            }
        }
    }
    regs
}

// ------------------------------------------------------------------------------------------------ scheduler

struct Flag {
    on: AtomicBool,
}
impl ArcWake for Flag {
    fn wake_by_ref(arc: &Arc<Self>) {
        arc.on.store(true, Ordering::SeqCst);
    }
}

pub struct Outcome<F> {
    /// final registers per party
    pub regs: Vec<Vec<Sh<F>>>,
    pub net: Arc<Mutex<Net<F>>>,
    /// lock-step rounds
    pub rounds: usize,
    pub events: usize,
}

pub const STOPPED: &str = "abandoned as asked";

pub struct Setup<'a, F> {
    /// the prime of the field, written down independently of the library
    pub p: BigUint,
    pub n: usize,
    pub t: usize,
    pub seed: u64,
    pub sched: &'a Sched,
    pub odd_triples: bool,
    /// inputs are shared over peculiar polynomials
    pub odd_shares: bool,
    /// jointly generated numbers are dealt and never zero
    pub dealt: bool,
    pub ops: Vec<Op<F>>,
    /// share and open with the library's own functions instead of the reference
    pub library: bool,
    /// initial registers: secret values
    pub inputs: Vec<BigUint>,
    /// parties whose program is replaced by plain contributions to joint random numbers
    pub adversary: Option<(usize, Vec<BigUint>)>,
    /// generator seeds of the parties, if not derived from `seed`
    pub party_seeds: Vec<u64>,
    /// whether wake-ups may come from other threads
    pub threads: bool,
    /// abandon the computation after so many events
    pub stop_after: Option<usize>,
}

type Task<F> = Pin<Box<dyn Future<Output = Vec<Sh<F>>>>>;

pub fn run<F: FieldBounds, P: Runs<F>>(s: Setup<F>) -> Result<Outcome<F>, String> {
    let p = s.p.clone();
    let (n, t) = (s.n, s.t);
    let net = Arc::new(Mutex::new(Net {
        lines: Lines::new(n, t, &p),
        p: p.clone(),
        seed: s.seed,
        n,
        t,
        lazy: s.sched.lazy,
        library: s.library,
        posted: vec![],
        inbox: HashMap::new(),
        wakers: HashMap::new(),
        shuffle: Sm(mix(s.sched.seed)),
        dealer: Sm(mix(mix(s.seed) ^ 11)),
        odd_triples: s.odd_triples,
        triples: vec![],
        dealt: [vec![], vec![]],
        opened: BTreeMap::new(),
        fault: None,
        contributed: BTreeMap::new(),
        reveals: vec![0; n],
        distributes: vec![0; n],
        triple_use: vec![0; n],
        program_rands: vec![vec![]; n],
        trace: vec![vec![]; n],
        round: 0,
        awaited: vec![BTreeMap::new(); n],
    }));
    let mut coins = Sm(mix(mix(s.seed) ^ 12));
    let ops = Arc::new(s.ops);
    let mut start: Vec<Vec<Sh<F>>> = vec![vec![]; n];
    for v in &s.inputs {
        if s.library {
            let mut rng = DetRng::new(coins.next());
            let shares =
                <P as ThresholdSecretSharingScheme<F, Sh<F>>>::generate_shares(&mut rng, &F::from(v.clone()), n, t);
            for (i, share) in shares.into_iter().enumerate() {
                start[i].push(share);
            }
            continue;
        }
        let deal = if s.odd_shares { share_odd } else { share_ref };
        for (x, y) in deal(v, n, t, &p, &mut coins) {
            start[x - 1].push((x, F::from(y)));
        }
    }
    let mut tasks: Vec<Option<Task<F>>> = vec![];
    for (i, regs) in start.into_iter().enumerate() {
        let mut party = P::make(i + 1, net.clone(), Sm(mix(mix(s.seed) ^ (100 + i as u64))), s.dealt);
        let rng = DetRng::new(s.party_seeds.get(i).copied().unwrap_or(mix(mix(s.seed) ^ (1000 + i as u64))));
        match &s.adversary {
            Some((first, values)) if i >= *first => {
                let values: Vec<F> = values.iter().map(|v| F::from(v.clone())).collect();
                tasks.push(Some(Box::pin(async move {
                    // follows the message pattern of the random-number protocol with values of its own choice
                    let mut regs = regs;
                    for v in values {
                        party.program_on();
                        let f = party.distribute_secret(v);
                        party.program_off();
                        let got = f.await;
                        let mut sum = F::zero();
                        let mut x = 0;
                        for g in got {
                            x = g.0;
                            sum = sum + g.1;
                        }
                        regs.push((x, sum));
                    }
                    regs
                })));
            }
            _ => tasks.push(Some(Box::pin(execute::<F, P>(party, rng, regs, ops.clone(), s.sched.seed >> 5 & 1 == 1)))),
        }
    }
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag { on: AtomicBool::new(true) })).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| waker(f.clone())).collect();
    let mut done: Vec<Option<Vec<Sh<F>>>> = (0..n).map(|_| None).collect();
    let mut rounds = 0;
    let mut events = 0;
    let mut waited = 0u32;

    let poll = |i: usize, tasks: &mut Vec<Option<Task<F>>>, done: &mut Vec<Option<Vec<Sh<F>>>>| {
        flags[i].on.store(false, Ordering::SeqCst);
        if let Some(task) = tasks[i].as_mut() {
            let mut cx = Context::from_waker(&wakers[i]);
            if let Poll::Ready(v) = task.as_mut().poll(&mut cx) {
                done[i] = Some(v);
                tasks[i] = None;
            }
        }
    };

    loop {
        if done.iter().all(|d| d.is_some()) {
            break;
        }
        events += 1;
        crate::pace::step();
        if s.stop_after.map_or(false, |k| events > k) {
            return Err(STOPPED.into());
        }
        if events > 50_000_000 {
            return Err("no progress: the parties keep exchanging messages".into());
        }
        let woken: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some() && flags[*i].on.load(Ordering::SeqCst)).collect();
        let waiting = net.lock().unwrap().posted.len();
        if woken.is_empty() && waiting == 0 {
            // the OR protocol takes process-wide locks: another thread of this process may be about to wake somebody
            static STUCK: AtomicBool = AtomicBool::new(false);
            let patience = if STUCK.load(Ordering::SeqCst) { 10_000 } else { 120_000 };
            if s.threads && waited < patience {
                waited += 1;
                if crate::pace::blocked() && waited < 2000 {
                    continue;
                }
                std::thread::sleep(std::time::Duration::from_micros(500));
                continue;
            }
            if s.threads {
                STUCK.store(true, Ordering::SeqCst);
            }
            let left: Vec<usize> = (0..n).filter(|i| done[*i].is_none()).map(|i| i + 1).collect();
            let net = net.lock().unwrap();
            return Err(format!(
                "the parties {:?} wait for each other: no message is under way and nobody was woken (openings {:?}, distributions {:?})",
                left, net.reveals, net.distributes
            ));
        }
        waited = 0;
        let r = net.lock().unwrap().shuffle.next();
        match s.sched.kind {
            3 => {
                // lock step: everybody runs until nobody can, then all messages arrive
                if let Some(i) = woken.first() {
                    poll(*i, &mut tasks, &mut done);
                } else {
                    rounds += 1;
                    let mut g = net.lock().unwrap();
                    g.round = rounds;
                    for m in std::mem::take(&mut g.posted) {
                        g.put(m);
                    }
                }
            }
            0 | 1 => {
                if let Some(i) = if s.sched.kind == 0 { woken.first() } else { woken.last() } {
                    poll(*i, &mut tasks, &mut done);
                } else {
                    let k = if s.sched.kind == 0 { 0 } else { waiting - 1 };
                    net.lock().unwrap().deliver(k);
                }
            }
            4 | 5 => {
                // party `who` is served last (4) or first (5)
                let who = (s.sched.seed % n as u64) as usize;
                let first = s.sched.kind == 5;
                let others: Vec<usize> = woken.iter().copied().filter(|i| (*i == who) == first).collect();
                if let Some(i) = others.first() {
                    poll(*i, &mut tasks, &mut done);
                } else {
                    let mut g = net.lock().unwrap();
                    let k = g.posted.iter().position(|m| (m.to == who + 1) == first);
                    if let Some(k) = k {
                        g.deliver(k);
                    } else {
                        drop(g);
                        if let Some(i) = woken.first() {
                            poll(*i, &mut tasks, &mut done);
                        } else {
                            net.lock().unwrap().deliver((r % waiting as u64) as usize);
                        }
                    }
                }
            }
            _ => {
                let spurious = if s.sched.kind == 6 && r % 8 == 0 { n } else { 0 };
                let k = ((r >> 8) % (woken.len() + waiting + spurious) as u64) as usize;
                if k < woken.len() {
                    poll(woken[k], &mut tasks, &mut done);
                } else if k < woken.len() + waiting {
                    net.lock().unwrap().deliver(k - woken.len());
                } else {
                    poll(k - woken.len() - waiting, &mut tasks, &mut done);
                }
            }
        }
    }
    let fault = net.lock().unwrap().fault.clone();
    if let Some(f) = fault {
        return Err(f);
    }
    Ok(Outcome { regs: done.into_iter().map(|d| d.unwrap()).collect(), net, rounds, events })
}

// ------------------------------------------------------------------------------------------------ plain evaluation

/// Evaluate on plain values. `rand` gives the value of the k-th random-number instruction. `None`: undefined.
pub fn plain<F: FieldBounds>(
    ops: &[Op<F>],
    inputs: &[BigUint],
    p: &BigUint,
    mut rand: impl FnMut(usize) -> BigUint,
) -> Vec<Option<BigUint>> {
    let mut r: Vec<Option<BigUint>> = inputs.iter().cloned().map(Some).collect();
    let mut rands = 0;
    for op in ops {
        let inv = |a: usize, r: &Vec<Option<BigUint>>| {
            r[a].as_ref().and_then(|v| if v.is_zero() { None } else { Some(inv_ref(v, p)) })
        };
        let bit = |a: usize, r: &Vec<Option<BigUint>>| match &r[a] {
            Some(v) if v.is_zero() => Some(false),
            Some(v) if v.is_one() => Some(true),
            _ => None,
        };
        let two = |a: &usize, b: &usize, f: &dyn Fn(&BigUint, &BigUint) -> BigUint, r: &Vec<Option<BigUint>>| {
            match (&r[*a], &r[*b]) {
                (Some(x), Some(y)) => Some(f(x, y) % p),
                _ => None,
            }
        };
        match op {
            Op::Add(a, b) => r.push(two(a, b, &|x, y| x + y, &r)),
            Op::Sub(a, b) => r.push(two(a, b, &|x, y| x + p - y, &r)),
            Op::AddScalar(a, k) => r.push(r[*a].as_ref().map(|v| (v + k.as_uint()) % p)),
            Op::SubScalar(a, k) => r.push(r[*a].as_ref().map(|v| (v + p - k.as_uint()) % p)),
            Op::MulScalar(a, k) => r.push(r[*a].as_ref().map(|v| (v * k.as_uint()) % p)),
            Op::Sum(v) => {
                let s = v.iter().try_fold(BigUint::zero(), |acc, i| r[*i].as_ref().map(|x| (acc + x) % p));
                r.push(s)
            }
            Op::Mul(a, b) => r.push(two(a, b, &|x, y| x * y, &r)),
            Op::MulBatch(v) => {
                let out: Vec<_> = v.iter().map(|(a, b)| two(a, b, &|x, y| x * y, &r)).collect();
                r.extend(out)
            }
            Op::Inv(a) => r.push(inv(*a, &r)),
            Op::InvBatch(v) => {
                let out: Vec<_> = v.iter().map(|a| inv(*a, &r)).collect();
                // one zero spoils the whole batch at most for itself, but nothing is promised
                let ok = out.iter().all(|o| o.is_some());
                r.extend(out.into_iter().map(|o| if ok { o } else { None }))
            }
            Op::Or1(a) => r.push(bit(*a, &r).map(|b| BigUint::from(b as u32))),
            Op::Or(v) => {
                let bits: Option<Vec<bool>> = v.iter().map(|a| bit(*a, &r)).collect();
                r.push(bits.map(|b| BigUint::from(b.iter().any(|x| *x) as u32)))
            }
            Op::Select(c, a, b) => {
                let v = bit(*c, &r).and_then(|c| if c { r[*a].clone() } else { r[*b].clone() });
                r.push(v)
            }
            Op::Rand => {
                r.push(Some(rand(rands)));
                rands += 1;
            }
            Op::Rands(k) => {
                for _ in 0..*k {
                    r.push(Some(rand(rands)));
                    rands += 1;
                }
            }
        }
    }
    r
}

/// Resolve a program so that every instruction is applied where it is defined; `rand` gives the values of random
/// numbers (or stand-ins for them, in fields too large for coincidences).
pub fn resolve<F: FieldBounds>(
    prog: &[Ins],
    inputs: &[BigUint],
    p: &BigUint,
    rand: impl Fn(usize) -> BigUint,
) -> Vec<Op<F>> {
    let mut ops: Vec<Op<F>> = vec![];
    for ins in prog {
        let vals = plain(&ops, inputs, p, &rand);
        let m = vals.len();
        let all = |i: &u16| *i as usize % m;
        let pick = |i: &u16, ok: &dyn Fn(&BigUint) -> bool| {
            let c: Vec<usize> = (0..m).filter(|j| vals[*j].as_ref().map_or(false, |v| ok(v))).collect();
            if c.is_empty() { None } else { Some(c[*i as usize % c.len()]) }
        };
        let bit = |v: &BigUint| v.is_zero() || v.is_one();
        let unit = |v: &BigUint| !v.is_zero();
        let k = |e: &El| F::from(e.value(p, &[]));
        let nothing = |a: u16| Op::AddScalar(all(&a), F::one());
        ops.push(match ins {
            Ins::Add(a, b) => Op::Add(all(a), all(b)),
            Ins::Sub(a, b) => Op::Sub(all(a), all(b)),
            Ins::AddScalar(a, e) => Op::AddScalar(all(a), k(e)),
            Ins::SubScalar(a, e) => Op::SubScalar(all(a), k(e)),
            Ins::MulScalar(a, e) => Op::MulScalar(all(a), k(e)),
            Ins::Sum(v) if v.is_empty() => nothing(0),
            Ins::Sum(v) => Op::Sum(v.iter().map(all).collect()),
            Ins::Mul(a, b) => Op::Mul(all(a), all(b)),
            Ins::MulBatch(v) => Op::MulBatch(v.iter().map(|(a, b)| (all(a), all(b))).collect()),
            Ins::Inv(a) => pick(a, &unit).map_or(nothing(*a), Op::Inv),
            Ins::InvBatch(v) => {
                let w: Option<Vec<usize>> = v.iter().map(|a| pick(a, &unit)).collect();
                w.map_or(nothing(0), Op::InvBatch)
            }
            Ins::Or1(a) => match pick(a, &bit) {
                Some(a) if *p > BigUint::from(2u32) => Op::Or1(a),
                _ => nothing(*a),
            },
            Ins::Or(v) => {
                let w: Option<Vec<usize>> = v.iter().map(|a| pick(a, &bit)).collect();
                match w {
                    Some(w) if !w.is_empty() && BigUint::from(w.len() + 1) < *p => Op::Or(w),
                    _ => nothing(0),
                }
            }
            Ins::Select(c, a, b) => pick(c, &bit).map_or(nothing(*c), |c| Op::Select(c, all(a), all(b))),
            Ins::Rand => Op::Rand,
            Ins::Rands(k) => Op::Rands(*k as usize),
        });
    }
    ops
}
