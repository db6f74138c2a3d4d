#![recursion_limit = "512"]
//! Double ratchet: whole conversations against a reference model of the schedule and of the deliveries.
use jester_double_ratchet::state::{Established, Initiator};
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::sha1::SHA1Hash;
use jester_maths::prime::PrimeField;
use jv::field::*;
use jv::{ensure, ensure_eq, fnv, mix, no_panic, Info, Prop, Res, Sm, Tier};
use num_bigint::BigUint;
use proptest::prelude::*;
use rand::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

// ------------------------------------------------------------------------------------------------ primitives

/// A choice of primitives for the protocol.
trait Suite: Sized + 'static {
    type Dh: DiffieHellmanKeyExchangeScheme<PublicKey = Self::Pub, PrivateKey = Self::Priv, SharedKey = Self::Shared>;
    type Enc: SymmetricalEncryptionScheme<Key = Self::Mk>;
    type Root: KeyDerivationFunction<ChainKey = Self::Rk, Input = Self::Shared, OutputKey = Self::Ck>;
    type Chain: ConstantInputKeyRatchet<ChainKey = Self::Ck, OutputKey = Self::Mk>;
    type Pub: Clone + Eq + Hash + Debug + 'static;
    type Priv: Clone + Debug + 'static;
    type Shared;
    type Rk;
    type Ck: Clone;
    type Mk;
    fn generator() -> Self::Pub;
    fn root(seed: u64) -> Self::Rk;
    /// The key pair this thread generated last, if any since the last call.
    fn generated() -> Option<(Self::Priv, Self::Pub)>;
    fn bytes(k: &Self::Mk) -> Vec<u8>;
}

type Pr<S, St> = DoubleRatchetProtocol<
    <S as Suite>::Dh,
    <S as Suite>::Enc,
    <S as Suite>::Root,
    <S as Suite>::Chain,
    <S as Suite>::Pub,
    <S as Suite>::Priv,
    <S as Suite>::Shared,
    <S as Suite>::Rk,
    <S as Suite>::Ck,
    <S as Suite>::Mk,
    St,
>;
type Msg<S> = DoubleRatchetAlgorithmMessage<<S as Suite>::Pub, Vec<u8>>;

thread_local! {
    static LAST_KEY: RefCell<Vec<u8>> = RefCell::new(vec![]);
    static SYM_PAIR: RefCell<Option<(u128, u128)>> = RefCell::new(None);
    static REAL_PAIR: RefCell<Option<(UserSecp, UserSecp)>> = RefCell::new(None);
}

/// Encrypt as tag of the key, then the text masked with it; decryption under another key yields garbage.
fn seal(key: &[u8], text: &[u8]) -> Vec<u8> {
    LAST_KEY.with(|k| *k.borrow_mut() = key.to_vec());
    let h = fnv(key);
    let mut out = mix(h).to_le_bytes().to_vec();
    out.extend(text.iter().enumerate().map(|(i, b)| b ^ (mix(h ^ (i as u64 / 8 + 77)) >> (i % 8 * 8)) as u8));
    out
}

fn open(key: &[u8], cipher: &[u8]) -> Vec<u8> {
    let h = fnv(key);
    if cipher.len() < 8 || cipher[..8] != mix(h).to_le_bytes() {
        return b"(decrypted under a key it was not encrypted with)".to_vec();
    }
    cipher[8..].iter().enumerate().map(|(i, b)| b ^ (mix(h ^ (i as u64 / 8 + 77)) >> (i % 8 * 8)) as u8).collect()
}

/// Symbolic primitives: commutative key agreement on odd 128-bit numbers, mixing functions as KDFs.
struct Sym;
struct SymDh;
struct SymEnc;
struct SymRoot;
struct SymChain;

fn mix128(a: u128, b: u128, tag: u64) -> u128 {
    let mut h = mix(tag);
    for w in [a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64] {
        h = mix(h ^ w);
    }
    let hi = mix(h ^ a as u64).wrapping_add(mix(b as u64 ^ h.rotate_left(17)));
    (h as u128) << 64 | mix(hi ^ (a >> 64) as u64 ^ ((b >> 64) as u64).rotate_left(32)) as u128
}

impl DiffieHellmanKeyExchangeScheme for SymDh {
    type PublicKey = u128;
    type PrivateKey = u128;
    type SharedKey = u128;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, g: &u128) -> (u128, u128) {
        let a = ((rng.next_u64() as u128) << 64 | rng.next_u64() as u128) | 1;
        let pair = (a, a.wrapping_mul(*g));
        SYM_PAIR.with(|l| *l.borrow_mut() = Some(pair));
        pair
    }
    fn generate_shared_secret(a: &u128, b: &u128) -> u128 {
        a.wrapping_mul(*b)
    }
}
impl SymmetricalEncryptionScheme for SymEnc {
    type Key = u128;
    fn generate_key<R: RngCore + CryptoRng>(_: &mut R) -> u128 {
        unreachable!()
    }
    fn encrypt_message(k: &u128, m: &[u8]) -> Vec<u8> {
        seal(&k.to_le_bytes(), m)
    }
    fn decrypt_message(k: &u128, m: &[u8]) -> Vec<u8> {
        open(&k.to_le_bytes(), m)
    }
}
impl KeyDerivationFunction for SymRoot {
    type ChainKey = u128;
    type Input = u128;
    type OutputKey = u128;
    fn derive_key(c: u128, i: u128) -> (u128, u128) {
        (mix128(c, i, 1), mix128(c, i, 2))
    }
}
impl KeyDerivationFunction for SymChain {
    type ChainKey = u128;
    type Input = u128;
    type OutputKey = u128;
    fn derive_key(c: u128, i: u128) -> (u128, u128) {
        (mix128(c, i, 3), mix128(c, i, 4))
    }
}
impl ConstantInputKeyRatchet for SymChain {
    const INPUT: u128 = 0xC0;
}
impl Suite for Sym {
    type Dh = SymDh;
    type Enc = SymEnc;
    type Root = SymRoot;
    type Chain = SymChain;
    type Pub = u128;
    type Priv = u128;
    type Shared = u128;
    type Rk = u128;
    type Ck = u128;
    type Mk = u128;
    fn generator() -> u128 {
        0x9E3779B97F4A7C15F39CC0605CEDC835
    }
    fn root(seed: u64) -> u128 {
        (mix(seed) as u128) << 64 | mix(seed ^ 5) as u128
    }
    fn generated() -> Option<(u128, u128)> {
        SYM_PAIR.with(|l| l.borrow_mut().take())
    }
    fn bytes(k: &u128) -> Vec<u8> {
        k.to_le_bytes().to_vec()
    }
}

/// The same with a stream cipher: no longer than the text, and empty for an empty text.
struct Stream;
struct StreamEnc;

impl SymmetricalEncryptionScheme for StreamEnc {
    type Key = u128;
    fn generate_key<R: RngCore + CryptoRng>(_: &mut R) -> u128 {
        unreachable!()
    }
    fn encrypt_message(k: &u128, m: &[u8]) -> Vec<u8> {
        seal(&k.to_le_bytes(), m).split_off(8)
    }
    fn decrypt_message(k: &u128, m: &[u8]) -> Vec<u8> {
        let key = k.to_le_bytes();
        let tag = mix(fnv(&key)).to_le_bytes();
        open(&key, &[&tag[..], m].concat())
    }
}
impl Suite for Stream {
    type Dh = SymDh;
    type Enc = StreamEnc;
    type Root = SymRoot;
    type Chain = SymChain;
    type Pub = u128;
    type Priv = u128;
    type Shared = u128;
    type Rk = u128;
    type Ck = u128;
    type Mk = u128;
    fn generator() -> u128 {
        Sym::generator()
    }
    fn root(seed: u64) -> u128 {
        Sym::root(seed)
    }
    fn generated() -> Option<(u128, u128)> {
        Sym::generated()
    }
    fn bytes(k: &u128) -> Vec<u8> {
        Sym::bytes(k)
    }
}

/// The repository's own primitives: Diffie-Hellman over a prime field, HKDF chains over SHA-1.
struct Real;
struct RealDh;
struct RealEnc;
struct RealRoot;
struct RealChain;

fn hkdf2(salt: &[u8], ikm: &[u8], info: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut a = hkdf_derive_key::<SHA1Hash, _>(&(), salt, ikm, 64, info);
    let b = a.split_off(32);
    (a, b)
}

impl DiffieHellmanKeyExchangeScheme for RealDh {
    type PublicKey = UserSecp;
    type PrivateKey = UserSecp;
    type SharedKey = UserSecp;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, g: &UserSecp) -> (UserSecp, UserSecp) {
        let pair = <UserSecp as DiffieHellmanKeyExchangeScheme>::generate_asymmetrical_key_pair(rng, g);
        REAL_PAIR.with(|l| *l.borrow_mut() = Some(pair.clone()));
        pair
    }
    fn generate_shared_secret(a: &UserSecp, b: &UserSecp) -> UserSecp {
        <UserSecp as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(a, b)
    }
}
impl SymmetricalEncryptionScheme for RealEnc {
    type Key = Vec<u8>;
    fn generate_key<R: RngCore + CryptoRng>(_: &mut R) -> Vec<u8> {
        unreachable!()
    }
    fn encrypt_message(k: &Vec<u8>, m: &[u8]) -> Vec<u8> {
        seal(k, m)
    }
    fn decrypt_message(k: &Vec<u8>, m: &[u8]) -> Vec<u8> {
        open(k, m)
    }
}
impl KeyDerivationFunction for RealRoot {
    type ChainKey = Vec<u8>;
    type Input = UserSecp;
    type OutputKey = Vec<u8>;
    fn derive_key(c: Vec<u8>, i: UserSecp) -> (Vec<u8>, Vec<u8>) {
        hkdf2(&c, &i.as_uint().to_bytes_be(), b"root")
    }
}
impl KeyDerivationFunction for RealChain {
    type ChainKey = Vec<u8>;
    type Input = &'static [u8];
    type OutputKey = Vec<u8>;
    fn derive_key(c: Vec<u8>, i: &'static [u8]) -> (Vec<u8>, Vec<u8>) {
        hkdf2(&c, i, b"chain")
    }
}
impl ConstantInputKeyRatchet for RealChain {
    const INPUT: &'static [u8] = &[1];
}
impl Suite for Real {
    type Dh = RealDh;
    type Enc = RealEnc;
    type Root = RealRoot;
    type Chain = RealChain;
    type Pub = UserSecp;
    type Priv = UserSecp;
    type Shared = UserSecp;
    type Rk = Vec<u8>;
    type Ck = Vec<u8>;
    type Mk = Vec<u8>;
    fn generator() -> UserSecp {
        UserSecp::from(BigUint::from(3u32))
    }
    fn root(seed: u64) -> Vec<u8> {
        Sm(mix(seed)).bytes(32)
    }
    fn generated() -> Option<(UserSecp, UserSecp)> {
        REAL_PAIR.with(|l| l.borrow_mut().take())
    }
    fn bytes(k: &Vec<u8>) -> Vec<u8> {
        k.clone()
    }
}

// ------------------------------------------------------------------------------------------------ world

/// Who: 0 starts the session (sends only a public key first), 1 is the addressee (speaks first).
enum Peer<S: Suite> {
    Waiting(Pr<S, Initiator>),
    Up(Pr<S, Established>),
    Gone,
}

#[derive(Clone, Debug)]
enum Prim {
    Send(usize, Vec<u8>),
    Recv(usize, usize),
    Lose(usize),
    Reseed(usize, u64),
}

#[derive(Debug, PartialEq)]
enum Outcome {
    Plain(Vec<u8>),
    Late(Vec<u8>),
    Refused,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Flying,
    Received,
    Lost,
}

struct Meta {
    from: usize,
    chain: usize,
    idx: usize,
    payload: Vec<u8>,
    key: Vec<u8>,
    fate: Fate,
}

#[derive(Clone, Copy, Debug)]
struct Seeds {
    root: u64,
    party: [u64; 2],
}

struct World<S: Suite> {
    seeds: Seeds,
    peers: [Peer<S>; 2],
    rng: [DetRng; 2],
    meta: Vec<Meta>,
    msgs: HashMap<usize, Msg<S>>,
    flight: [Vec<usize>; 2],
    history: Vec<Prim>,
    // model
    my_chain: [usize; 2],
    my_sent: [usize; 2],
    peer_chain: [usize; 2],
    /// messages of `peer_chain` received or skipped
    peer_next: [usize; 2],
    /// latest key pair each party generated, and those of the chains so far
    latest: [(S::Priv, S::Pub); 2],
    pairs: Vec<Option<(S::Priv, S::Pub)>>,
    late: usize,
    early: usize,
    /// go on when a message decrypts to something else (which is for R01 to R03 to judge)
    lenient: bool,
}

fn one_pair<S: Suite>() -> Result<(S::Priv, S::Pub), String> {
    S::generated().ok_or_else(|| "a party started a session without generating a key pair".into())
}

impl<S: Suite> World<S> {
    fn new(seeds: Seeds) -> Result<Self, String> {
        let mut rng = [DetRng::new(seeds.party[0]), DetRng::new(seeds.party[1])];
        S::generated();
        let (alice, first) =
            Pr::<S, Initiator>::initialize_sending(&mut rng[0], S::generator(), S::root(seeds.root));
        drop(first);
        let pair0 = one_pair::<S>()?;
        let bob = Pr::<S, Established>::initialize_receiving(
            &mut rng[1],
            S::generator(),
            pair0.1.clone(),
            S::root(seeds.root),
        );
        let pair1 = one_pair::<S>()?;
        Ok(World {
            seeds,
            peers: [Peer::Waiting(alice), Peer::Up(bob)],
            rng,
            meta: vec![],
            msgs: HashMap::new(),
            flight: [vec![], vec![]],
            history: vec![],
            my_chain: [0, 1],
            my_sent: [0, 0],
            peer_chain: [0, 0],
            peer_next: [0, 0],
            latest: [pair0.clone(), pair1.clone()],
            pairs: vec![Some(pair0), Some(pair1)],
            late: 0,
            early: 0,
            lenient: false,
        })
    }

    fn can_send(&self, who: usize) -> bool {
        matches!(self.peers[who], Peer::Up(_))
    }

    fn send(&mut self, who: usize, payload: &[u8]) -> usize {
        let id = self.meta.len();
        let m = match &mut self.peers[who] {
            Peer::Up(p) => p.encrypt_message(payload),
            _ => unreachable!("harness: sender not established"),
        };
        let key = LAST_KEY.with(|k| k.borrow().clone());
        let c = self.my_chain[who];
        if self.pairs.len() <= c {
            self.pairs.resize(c + 1, None);
        }
        if self.pairs[c].is_none() {
            self.pairs[c] = Some(self.latest[who].clone());
        }
        self.meta.push(Meta {
            from: who,
            chain: c,
            idx: self.my_sent[who],
            payload: payload.to_vec(),
            key,
            fate: Fate::Flying,
        });
        self.my_sent[who] += 1;
        self.msgs.insert(id, m);
        self.flight[who].push(id);
        self.history.push(Prim::Send(who, payload.to_vec()));
        id
    }

    fn take_flight(&mut self, id: usize) {
        let from = self.meta[id].from;
        if let Ok(i) = self.flight[from].binary_search(&id) {
            self.flight[from].remove(i);
        }
    }

    /// Give `m` to party `to`.
    fn hand(&mut self, to: usize, m: Msg<S>) -> Outcome {
        S::generated();
        let peer = std::mem::replace(&mut self.peers[to], Peer::Gone);
        let (peer, out) = match peer {
            Peer::Waiting(p) => {
                let (p, text) = p.decrypt_first_message(&mut self.rng[to], m);
                (Peer::Up(p), Outcome::Plain(text))
            }
            Peer::Up(mut p) => {
                let out = match p.decrypt_message(&mut self.rng[to], m) {
                    Ok(t) => Outcome::Plain(t),
                    Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => {
                        Outcome::Late(decrypted_message)
                    }
                    Err(_) => Outcome::Refused,
                };
                (Peer::Up(p), out)
            }
            Peer::Gone => unreachable!("harness: party lost"),
        };
        self.peers[to] = peer;
        if let Some(pair) = S::generated() {
            self.latest[to] = pair;
        }
        out
    }

    fn recv(&mut self, id: usize) -> Result<(), String> {
        let m = self.msgs.remove(&id).unwrap();
        self.take_flight(id);
        let from = self.meta[id].from;
        let to = 1 - from;
        let (chain, idx) = (self.meta[id].chain, self.meta[id].idx);
        let late = (chain, idx + 1) <= (self.peer_chain[to], self.peer_next[to]);
        let text = self.meta[id].payload.clone();
        let want = if late { Outcome::Late(text) } else { Outcome::Plain(text) };
        self.history.push(Prim::Recv(to, id));
        let got = self.hand(to, m);
        let processed = std::mem::discriminant(&got) == std::mem::discriminant(&want);
        ensure!(
            got == want || self.lenient && processed,
            "message {} of chain {} (number {} overall) arriving at party {}, which has so far seen chain {} up to {} messages: got {:?}, expected {:?}",
            idx, chain, id, to, self.peer_chain[to], self.peer_next[to], got, want
        );
        self.meta[id].fate = Fate::Received;
        if late {
            self.late += 1;
        } else {
            if chain > self.peer_chain[to] {
                if idx > 0 {
                    self.early += 1;
                }
                self.peer_chain[to] = chain;
                self.my_chain[to] = chain + 1;
                self.my_sent[to] = 0;
            } else if idx > self.peer_next[to] {
                self.early += 1;
            }
            self.peer_next[to] = idx + 1;
        }
        Ok(())
    }

    fn lose(&mut self, id: usize) {
        self.take_flight(id);
        self.msgs.remove(&id);
        self.meta[id].fate = Fate::Lost;
        self.history.push(Prim::Lose(id));
    }

    fn reseed(&mut self, who: usize, seed: u64) {
        self.rng[who] = DetRng::new(seed);
        self.history.push(Prim::Reseed(who, seed));
    }

    fn apply(&mut self, p: &Prim) -> Result<(), String> {
        match p {
            Prim::Send(w, t) => {
                self.send(*w, t);
            }
            Prim::Recv(_, id) => self.recv(*id)?,
            Prim::Lose(id) => self.lose(*id),
            Prim::Reseed(w, s) => self.reseed(*w, *s),
        }
        Ok(())
    }

    /// Another copy of message `id`, made by repeating the history up to its sending.
    fn copy_of(&self, id: usize) -> Result<Msg<S>, String> {
        let mut w = World::<S>::new(self.seeds)?;
        w.lenient = self.lenient;
        for p in &self.history {
            w.apply(p)?;
            if w.meta.len() > id {
                break;
            }
        }
        w.msgs.remove(&id).ok_or_else(|| "harness: no copy".into())
    }

    /// A message by which party `from` (in another possible history) opens a new turn, claiming to have sent fewer
    /// messages in its current one than party `1 - from` has already seen, or to have sent some in an earlier turn
    /// although party `1 - from` has seen none of its messages and hence never began the turn in between, or under the
    /// public key that only announces the session.
    fn contradiction(&self, from: usize, keep: usize, seed: u64) -> Result<Option<Msg<S>>, String> {
        let to = 1 - from;
        let c = self.my_chain[from];
        if to == 1 && self.peer_chain[1] == 0 && seed % 4 == 0 {
            // a message under the key that was announced to open the session, which belongs to no chain
            let mut p = Pr::<S, Established>::initialize_receiving(
                &mut DetRng::new(self.seeds.party[0]),
                S::generator(),
                self.pairs[1].clone().ok_or("harness: no first pair")?.1,
                S::root(self.seeds.root),
            );
            return Ok(Some(p.encrypt_message(b"contradiction")));
        }
        if to == 1 && self.peer_chain[1] == 0 && c == 2 {
            let mut w = World::<S>::new(self.seeds)?;
            w.lenient = self.lenient;
            for p in &self.history {
                w.apply(p)?;
            }
            for _ in 0..keep % 3 {
                w.send(from, b"before");
            }
            let first = w.send(from, b"before");
            w.reseed(to, seed);
            w.recv(first)?;
            let reply = w.send(to, b"reply");
            w.recv(reply)?;
            let id = w.send(from, b"contradiction");
            return Ok(w.msgs.remove(&id));
        }
        if c == 0 || self.peer_chain[to] != c || self.peer_next[to] == 0 {
            return Ok(None);
        }
        let keep = keep % self.peer_next[to];
        // the history up to the point where `from` had sent `keep` messages of its current chain
        let mut w = World::<S>::new(self.seeds)?;
        w.lenient = self.lenient;
        let mut n = 0;
        for p in &self.history {
            if let Prim::Send(who, _) = p {
                if *who == from && w.my_chain[from] == c {
                    if n == keep {
                        break;
                    }
                    n += 1;
                }
            }
            w.apply(p)?;
        }
        // now `to` replies, in that other history, so `to` must have seen the chain
        if w.peer_chain[to] != c {
            let Some(id) = w.meta.iter().position(|m| m.from == from && m.chain == c && m.fate == Fate::Flying) else {
                return Ok(None);
            };
            w.recv(id)?;
        }
        let reply = w.send(to, b"reply");
        w.reseed(from, seed);
        w.recv(reply)?;
        if w.my_chain[from] == c {
            return Ok(None);
        }
        let id = w.send(from, b"contradiction");
        Ok(w.msgs.remove(&id))
    }

    /// The key the specification assigns to message `idx` of chain `c`.
    fn check_keys(&self) -> Result<(), String> {
        let mut rk = S::root(self.seeds.root);
        let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
        for (i, m) in self.meta.iter().enumerate() {
            if let Some(j) = seen.insert(m.key.clone(), i) {
                return Err(format!("messages {} and {} are encrypted under the same key", j, i));
            }
        }
        let last = self.meta.iter().map(|m| m.chain).max().unwrap_or(0);
        for c in 1..=last {
            let (Some(mine), Some(other)) = (&self.pairs[c], &self.pairs[c - 1]) else {
                return Err(format!("harness: chain {} has no key pair", c));
            };
            let dh = S::Dh::generate_shared_secret(&mine.0, &other.1);
            let (next, mut ck) = S::Root::derive_key(rk, dh);
            rk = next;
            let mut of: Vec<&Meta> = self.meta.iter().filter(|m| m.chain == c).collect();
            of.sort_by_key(|m| m.idx);
            for (n, m) in of.iter().enumerate() {
                ensure!(m.idx == n && m.from == c % 2, "harness: chain bookkeeping");
                let (nck, mk) = S::Chain::derive_key_without_input(ck);
                ck = nck;
                ensure!(
                    S::bytes(&mk) == m.key,
                    "message {} of chain {} is not encrypted under the key of the double ratchet schedule",
                    n, c
                );
            }
        }
        Ok(())
    }

    fn chains(&self) -> usize {
        self.meta.iter().filter(|m| m.fate == Fate::Received).map(|m| m.chain).max().unwrap_or(0)
    }
}

// ------------------------------------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// party, number of messages
    Send(bool, u16),
    /// deliver the n-th message in flight towards the party
    Deliver(bool, u16),
    /// deliver everything in flight towards the party in order
    DeliverAll(bool),
    /// deliver everything in flight towards the party in reverse order
    DeliverReversed(bool),
    /// the n-th message in flight towards the party is lost
    Lose(bool, u16),
    /// redeliver the n-th message (from the latest) the party has already decrypted
    Replay(bool, u16),
    /// hand the party a message that contradicts what it has received
    Contradict(bool, u16),
    /// send and deliver one message each way
    Turn(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    real: bool,
    seed: u64,
    ops: Vec<Op>,
    /// order in which what is still in flight arrives at the end
    drain: u64,
}

#[derive(Clone, Copy, PartialEq)]
struct Allow {
    reorder: bool,
    replay: bool,
}

/// Seeds for different purposes must never coincide.
fn derive(seed: u64, purpose: u64, n: u64) -> u64 {
    mix(mix(mix(seed) ^ purpose) ^ n)
}

fn seeds(t: &Talk) -> Seeds {
    Seeds { root: derive(t.seed, 0, 0), party: [derive(t.seed, 1, 0), derive(t.seed, 2, 0)] }
}

fn text(w: usize, n: u64) -> Vec<u8> {
    let mut s = Sm(mix(n ^ 0xABC));
    let kind = s.next();
    let len = match kind >> 8 & 511 {
        0 => 70_001,
        1..=7 => 4096 + (kind >> 20 & 3) as usize,
        8..=23 => 1000,
        _ => [0, 1, 5, 16, 33, 200][(kind % 6) as usize],
    };
    let mut v = s.bytes(len);
    match kind >> 32 & 15 {
        0 => v = vec![0; len],
        1 => v = vec![0xFF; len],
        2 => v.iter_mut().skip(len / 2).for_each(|b| *b = 0),
        3 => v.iter_mut().take(len / 2).for_each(|b| *b = 0),
        _ => (),
    }
    if kind >> 40 & 1 == 0 {
        if let Some(first) = v.first_mut() {
            *first = w as u8;
        }
    }
    v
}

#[derive(Default)]
struct Stats {
    replays: usize,
    old_replays: usize,
    contradictions: usize,
    after_refusal: usize,
    /// a message that had to be refused was not
    accepted: bool,
}

fn converse<S: Suite>(t: &Talk, allow: Allow) -> Result<(World<S>, Stats), String> {
    let mut w = World::<S>::new(seeds(t))?;
    let mut st = Stats::default();
    converse_in(t, allow, &mut w, &mut st)?;
    Ok((w, st))
}

/// The conversation up to the first arrival that is wrongly refused or accepted.
fn converse_while_well<S: Suite>(t: &Talk, allow: Allow) -> Result<World<S>, String> {
    let mut w = World::<S>::new(seeds(t))?;
    w.lenient = true;
    let _ = no_panic(|| converse_in(t, allow, &mut w, &mut Stats::default()));
    Ok(w)
}

/// Repeat a history, up to the first arrival that is wrongly refused or accepted.
fn repeat_while_well<S: Suite>(w: &mut World<S>, history: &[Prim], reseed: Option<(usize, usize, u64)>) {
    w.lenient = true;
    let _ = no_panic(|| {
        for (i, p) in history.iter().enumerate() {
            if let Some((at, who, seed)) = reseed {
                if at == i {
                    w.rng[who] = DetRng::new(seed);
                }
            }
            if w.apply(p).is_err() {
                break;
            }
        }
    });
}

fn converse_in<S: Suite>(t: &Talk, allow: Allow, w: &mut World<S>, st: &mut Stats) -> Result<(), String> {
    let refused = |w: &World<S>, st: &Stats| st.replays + st.contradictions > 0 && !w.meta.is_empty();
    for op in &t.ops {
        match op {
            Op::Send(who, n) => {
                let who = *who as usize;
                if w.can_send(who) {
                    for _ in 0..*n {
                        let x = w.meta.len() as u64 ^ t.seed;
                        w.send(who, &text(who, x));
                    }
                }
            }
            Op::Deliver(to, pick) => {
                let q = &w.flight[1 - *to as usize];
                if !q.is_empty() {
                    let i = if allow.reorder { *pick as usize * q.len() / 65536 } else { 0 };
                    let id = q[i];
                    if refused(w, st) {
                        st.after_refusal += 1;
                    }
                    w.recv(id)?;
                }
            }
            Op::DeliverAll(to) => {
                for id in w.flight[1 - *to as usize].clone() {
                    w.recv(id)?;
                }
            }
            Op::DeliverReversed(to) => {
                let mut q = w.flight[1 - *to as usize].clone();
                if allow.reorder {
                    q.reverse();
                }
                for id in q {
                    w.recv(id)?;
                }
            }
            Op::Lose(to, pick) => {
                let q = &w.flight[1 - *to as usize];
                if allow.reorder && !q.is_empty() {
                    let id = q[*pick as usize * q.len() / 65536];
                    w.lose(id);
                }
            }
            Op::Turn(first) => {
                for who in [*first as usize, 1 - *first as usize] {
                    if w.can_send(who) {
                        let x = w.meta.len() as u64 ^ t.seed;
                        let id = w.send(who, &text(who, x));
                        if allow.reorder {
                            w.recv(id)?;
                        } else {
                            for id in w.flight[who].clone() {
                                w.recv(id)?;
                            }
                        }
                    }
                }
            }
            Op::Replay(to, pick) => {
                let from = 1 - *to as usize;
                let got: Vec<usize> =
                    (0..w.meta.len()).filter(|i| w.meta[*i].from == from && w.meta[*i].fate == Fate::Received).collect();
                if allow.replay && !got.is_empty() {
                    let id = got[got.len() - 1 - *pick as usize * got.len() / 65536];
                    let m = w.copy_of(id)?;
                    let out = w.hand(*to as usize, m);
                    st.accepted = out != Outcome::Refused;
                    ensure_eq!(
                        out,
                        Outcome::Refused,
                        "replay of message {} of chain {} at party {}, which is at chain {}",
                        w.meta[id].idx, w.meta[id].chain, *to as usize, w.peer_chain[*to as usize]
                    );
                    st.replays += 1;
                    st.old_replays += (w.meta[id].chain < w.peer_chain[*to as usize]) as usize;
                }
            }
            Op::Contradict(to, keep) => {
                let from = 1 - *to as usize;
                if allow.replay {
                    if let Some(m) = w.contradiction(from, *keep as usize, derive(t.seed, 3, *keep as u64))? {
                        let out = w.hand(*to as usize, m);
                        st.accepted = out != Outcome::Refused;
                        ensure_eq!(out, Outcome::Refused, "message with contradicting counters at party {}", *to as usize);
                        st.contradictions += 1;
                    }
                }
            }
        }
    }
    // what is left arrives
    let mut sm = Sm(mix(t.drain));
    loop {
        let dirs: Vec<usize> = (0..2).filter(|d| !w.flight[*d].is_empty()).collect();
        if dirs.is_empty() {
            break;
        }
        let d = dirs[(sm.next() % dirs.len() as u64) as usize];
        let i = if allow.reorder { (sm.next() % w.flight[d].len() as u64) as usize } else { 0 };
        let id = w.flight[d][i];
        w.recv(id)?;
    }
    // both sides are still usable
    for who in [1, 0, 1] {
        let id = w.send(who, b"still here");
        w.recv(id)?;
    }
    Ok(())
}

fn talk(tier: Tier, allow: Allow) -> BoxedStrategy<Talk> {
    let n = prop_oneof![12 => 1u16..6, 3 => 6u16..20, 1 => 60u16..70, 1 => 250u16..270];
    let r = allow.reorder as u32;
    let p = allow.replay as u32;
    let op = prop_oneof![
        8 => (any::<bool>(), n).prop_map(|(w, n)| Op::Send(w, n)),
        9 => (any::<bool>(), any::<u16>()).prop_map(|(w, n)| Op::Deliver(w, n)),
        2 => any::<bool>().prop_map(Op::DeliverAll),
        r => any::<bool>().prop_map(Op::DeliverReversed),
        2 * r => (any::<bool>(), any::<u16>()).prop_map(|(w, n)| Op::Lose(w, n)),
        4 => any::<bool>().prop_map(Op::Turn),
        5 * p => (any::<bool>(), any::<u16>()).prop_map(|(w, n)| Op::Replay(w, n)),
        2 * p => (any::<bool>(), 0u16..40).prop_map(|(w, n)| Op::Contradict(w, n)),
    ];
    let len = tier.pick(40usize, 150);
    (prop::bool::weighted(0.08), any::<u64>(), prop::collection::vec(op, 1..len), any::<u64>())
        .prop_map(|(real, seed, ops, drain)| Talk { real, seed, ops, drain })
        .boxed()
}

/// Every short history over a small alphabet of operations, and a few long ones.
fn short_talks(alphabet: &[Op], len: usize) -> Vec<Talk> {
    let mut out = vec![];
    let mut idx = vec![0usize; 0];
    for l in 1..=len {
        idx.clear();
        idx.resize(l, 0);
        'all: loop {
            out.push(Talk {
                real: false,
                seed: if out.len() % 3 == 0 { 5 } else { 7 },
                ops: idx.iter().map(|i| alphabet[*i].clone()).collect(),
                drain: idx.iter().sum::<usize>() as u64,
            });
            for k in (0..l).rev() {
                idx[k] += 1;
                if idx[k] < alphabet.len() {
                    continue 'all;
                }
                idx[k] = 0;
            }
            break;
        }
    }
    out
}

fn long_talks(seed: u64) -> Vec<Talk> {
    let t = |real, ops: Vec<Op>| Talk { real, seed: mix(seed), ops, drain: seed };
    vec![
        t(false, (0..1200).map(|_| Op::Turn(true)).collect()),
        t(true, (0..40).map(|_| Op::Turn(true)).collect()),
        t(false, vec![Op::Send(true, 600), Op::DeliverReversed(false), Op::Send(false, 600), Op::DeliverReversed(true), Op::Turn(true)]),
        t(false, vec![
            Op::Turn(true), Op::Send(true, 300), Op::Deliver(false, 65535), Op::Turn(false), Op::Turn(true),
            Op::DeliverAll(false), Op::Turn(true),
        ]),
        // a chain that exceeds 16 bits, of which all but the last messages are delayed where that is possible
        t(false, vec![
            Op::Send(true, 65535), Op::Send(true, 1500), Op::Deliver(false, 65535), Op::DeliverReversed(false), Op::Turn(false),
            Op::Send(false, 65535), Op::Send(false, 900), Op::Deliver(true, 65535), Op::Turn(true), Op::DeliverReversed(true),
        ]),
        // a message of every chain stays behind for hundreds of turns
        t(false, (0..300).flat_map(|_| vec![Op::Send(true, 1), Op::Send(false, 1), Op::Turn(true)]).collect()),
    ]
}

macro_rules! by_suite {
    ($t:expr, |$S:ident| $body:expr) => {
        if $t.real {
            type $S = Real;
            $body
        } else if $t.seed % 4 == 1 {
            type $S = Stream;
            $body
        } else {
            type $S = Sym;
            $body
        }
    };
}

fn base_labels<S: Suite>(info: Info, w: &World<S>, t: &Talk) -> Info {
    info.label(t.real, "repository's own primitives")
        .label(!t.real && t.seed % 4 == 1, "stream cipher")
        .label(w.chains() >= 6, "at least 6 chains")
        .label(w.late > 0, "late arrivals")
        .label(w.early > 0, "arrivals ahead of others")
        .label(w.meta.iter().any(|m| m.fate == Fate::Lost), "losses")
        .label(w.meta.iter().any(|m| m.idx > 200), "chains longer than 200")
}

struct R01;
impl Prop for R01 {
    type Case = Talk;
    const ID: &'static str = "R01";
    const RULE: &'static str = "random conversations of two sessions (sends, bursts of up to 270, deliveries, exchanged turns) under first-in-first-out delivery per direction, some with the repository's Diffie-Hellman and HKDF, a quarter with a length-preserving cipher, plus every operation sequence up to a bound; every arrival compared with what was sent. Non-trivial: at least three chains were received and some chain had two messages";
    fn fixed(tier: Tier, seed: u64) -> Vec<Talk> {
        let a = [Op::Send(true, 1), Op::Send(false, 2), Op::Deliver(true, 0), Op::Deliver(false, 0), Op::Turn(true)];
        let mut v = short_talks(&a, tier.pick(6, 8));
        v.extend(long_talks(seed));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(80_000, 4_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Talk> {
        talk(tier, Allow { reorder: false, replay: false })
    }
    fn check(t: &Talk) -> Res {
        by_suite!(t, |S| {
            let (w, _) = converse::<S>(t, Allow { reorder: false, replay: false })?;
            let multi = w.meta.iter().any(|m| m.idx > 0);
            Ok(base_labels(Info::new(w.chains() >= 3 + 1 && multi), &w, t))
        })
    }
}

struct R02;
impl Prop for R02 {
    type Case = Talk;
    const ID: &'static str = "R02";
    const RULE: &'static str = "random conversations whose messages are delivered in any order, kept back over any number of turns, or lost; plus every operation sequence up to a bound; every arrival compared with what was sent and with whether it comes ahead of or behind later messages of its sender. Non-trivial: a message arrived late or ahead of another";
    fn fixed(tier: Tier, seed: u64) -> Vec<Talk> {
        let a = [
            Op::Send(true, 2),
            Op::Send(false, 2),
            Op::Deliver(true, 0),
            Op::Deliver(true, 65535),
            Op::Deliver(false, 0),
            Op::Deliver(false, 65535),
            Op::Turn(true),
        ];
        let mut v = short_talks(&a, tier.pick(5, 7));
        v.extend(long_talks(seed));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(80_000, 4_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Talk> {
        talk(tier, Allow { reorder: true, replay: false })
    }
    fn check(t: &Talk) -> Res {
        by_suite!(t, |S| {
            let (w, _) = converse::<S>(t, Allow { reorder: true, replay: false })?;
            Ok(base_labels(Info::new(w.late + w.early > 0), &w, t))
        })
    }
}

/// Replays of the oldest messages, and of some in between, after many turns.
fn old_replays(tier: Tier, seed: u64) -> Vec<Talk> {
    let mut out = vec![];
    for (i, n) in tier.pick(vec![20, 70, 150, 300, 700, 1100], vec![70, 150, 300, 700, 1100, 2100, 4200]).into_iter().enumerate() {
        for shape in 0..4u64 {
            let mut ops = vec![Op::Send(true, 3), Op::DeliverAll(false), Op::Send(false, 2), Op::Deliver(true, 65535)];
            for k in 0..n {
                ops.push(Op::Turn(shape % 2 == 0));
                // refusals along the way, too
                if shape >= 2 && k % 97 == 60 {
                    ops.push(Op::Replay(k % 2 == 0, 65535));
                }
            }
            for to in [false, true] {
                ops.extend((0..4).map(|q| Op::Replay(to, 65535 - q * 9000)));
                ops.push(Op::Replay(to, 0));
                ops.push(Op::Contradict(to, 0));
                ops.push(Op::Turn(to));
            }
            out.push(Talk { real: false, seed: mix(seed ^ shape) ^ i as u64, ops, drain: shape });
        }
    }
    out
}

struct R03;
impl Prop for R03 {
    type Case = Talk;
    const ID: &'static str = "R03";
    const RULE: &'static str = "random conversations with reordering and loss into which copies of already decrypted messages (made by repeating the history) and messages with contradicting counters (made by an alternative history) are inserted; each must be refused and every later arrival must still decrypt as modelled. Non-trivial: something was refused and a message arrived afterwards";
    fn fixed(tier: Tier, seed: u64) -> Vec<Talk> {
        let a = [
            Op::Send(true, 2),
            Op::Send(false, 2),
            Op::Deliver(true, 65535),
            Op::Deliver(false, 0),
            Op::Turn(true),
            Op::Replay(true, 0),
            Op::Replay(false, 65535),
            Op::Contradict(false, 0),
        ];
        let mut v = short_talks(&a, tier.pick(5, 6));
        v.extend(old_replays(tier, seed));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(50_000, 2_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Talk> {
        talk(tier, Allow { reorder: true, replay: true })
    }
    fn check(t: &Talk) -> Res {
        by_suite!(t, |S| {
            let allow = Allow { reorder: true, replay: true };
            let mut w = World::<S>::new(seeds(t))?;
            let mut st = Stats::default();
            if let Err(e) = no_panic(|| converse_in(t, allow, &mut w, &mut st)).and_then(|r| r) {
                let mut plain = t.clone();
                plain.ops.retain(|o| !matches!(o, Op::Replay(..) | Op::Contradict(..)));
                if !st.accepted && !matches!(no_panic(|| converse::<S>(&plain, allow)), Ok(Ok(_))) {
                    // goes wrong without any refused message, too: that is for R02 to judge
                    return Ok(Info::new(false).label(true, "wrong even without replays"));
                }
                return Err(e);
            }
            Ok(base_labels(Info::new(st.replays + st.contradictions > 0), &w, t)
                .label(st.replays > 0, "replays")
                .label(st.old_replays > 0, "replays from an earlier chain")
                .label(st.contradictions > 0, "contradicting counters")
                .label(st.after_refusal > 0, "deliveries after a refusal"))
        })
    }
}

struct R04;
impl Prop for R04 {
    type Case = Talk;
    const ID: &'static str = "R04";
    const RULE: &'static str = "random conversations with reordering, loss and replays; the key of every message, observed by the encryption scheme, is compared with the one a reference key schedule derives from the root secret and the generated key pairs, and all keys must differ. Non-trivial: at least four chains";
    fn fixed(tier: Tier, seed: u64) -> Vec<Talk> {
        let a = [
            Op::Send(true, 1),
            Op::Send(false, 2),
            Op::Deliver(true, 65535),
            Op::Deliver(false, 0),
            Op::DeliverReversed(false),
            Op::Turn(false),
        ];
        let mut v = short_talks(&a, tier.pick(5, 7));
        v.extend(long_talks(seed));
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(50_000, 2_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Talk> {
        talk(tier, Allow { reorder: true, replay: true })
    }
    fn check(t: &Talk) -> Res {
        by_suite!(t, |S| {
            let w = converse_while_well::<S>(t, Allow { reorder: true, replay: true })?;
            w.check_keys()?;
            Ok(base_labels(Info::new(w.chains() >= 4), &w, t))
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Split {
    talk: Talk,
    /// which of the points where randomness is drawn is changed
    at: u16,
    other: u64,
}

struct R05;

fn split<S: Suite>(c: &Split) -> Res {
    let t = &c.talk;
    let a = converse_while_well::<S>(t, Allow { reorder: true, replay: false })?;
    let keys: HashSet<&Vec<u8>> = a.meta.iter().map(|m| &m.key).collect();
    // the points at which a party meets the first message of a new turn; 0 and 1 are the initialisations
    let mut points = vec![(None, 0usize, 1usize), (None, 1, 1)];
    let mut seen = [0usize; 2];
    for (i, p) in a.history.iter().enumerate() {
        if let Prim::Recv(to, id) = p {
            let ch = a.meta[*id].chain;
            if ch > seen[*to] {
                seen[*to] = ch;
                points.push((Some(i), *to, ch + 1));
            }
        }
    }
    let (at, who, from_chain) = points[c.at as usize * points.len() / 65536];
    let mut s = a.seeds;
    let other = derive(t.seed, 4, c.other);
    if at.is_none() {
        s.party[who] = other;
    }
    let mut b = World::<S>::new(s)?;
    repeat_while_well(&mut b, &a.history, at.map(|i| (i, who, other)));
    let mut affected = 0;
    for (i, m) in b.meta.iter().enumerate() {
        if m.chain >= from_chain {
            affected += 1;
            ensure!(
                !keys.contains(&m.key),
                "message {} (chain {}, number {}) is encrypted under a key of the execution in which party {} drew other randomness for chain {}",
                i, m.chain, m.idx, who, from_chain
            );
        }
    }
    // another root secret, everything else equal
    let mut r = a.seeds;
    r.root = derive(t.seed, 5, c.other);
    let mut d = World::<S>::new(r)?;
    repeat_while_well(&mut d, &a.history, None);
    for m in &d.meta {
        ensure!(
            !keys.contains(&m.key),
            "message (chain {}, number {}) of a session with another root secret is encrypted under a key of this session",
            m.chain, m.idx
        );
    }
    Ok(base_labels(Info::new(affected > 0 && from_chain > 1), &a, t)
        .label(at.is_none(), "diverging at session start")
        .label(from_chain > 4, "diverging after several turns"))
}

impl Prop for R05 {
    type Case = Split;
    const ID: &'static str = "R05";
    const RULE: &'static str = "random conversations executed three times: as they are, with the generator of one party reseeded just before it meets the first message of a turn (or at session start), and with another root secret; keys observed by the encryption scheme from the divergence on must not occur in the first execution. Non-trivial: the divergence lies after session start and affects at least one message";
    fn cases(tier: Tier) -> u32 {
        tier.pick(50_000, 2_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Split> {
        (talk(tier, Allow { reorder: true, replay: false }), any::<u16>(), any::<u64>())
            .prop_map(|(talk, at, other)| Split { talk, at, other })
            .boxed()
    }
    fn check(c: &Split) -> Res {
        by_suite!(c.talk, |S| split::<S>(c))
    }
}

fn main() {
    jv::main(&[jv::reg::<R01>(), jv::reg::<R02>(), jv::reg::<R03>(), jv::reg::<R04>(), jv::reg::<R05>()])
}
