import json,os
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
R={
'H01':("One-shot digests: every length of a contiguous range from 0 (past several blocks) with random, all-zero and all-one content; random lengths up to 70 kB biased to block and padding boundaries; single-bit flips; messages starting at any address modulo 64; three messages longer than 2^32 bits, in one update or 1 MiB updates.","Independent MD5 written from the RFC, evaluated on the same bytes.","15 s","Tests sample a handful of strings; padding and length-field errors show only at particular lengths modulo 64, or beyond 512 MiB."),
'H02':("As H01, for SHA-1.","Independent SHA-1 from FIPS 180-4.","15 s","As H01."),
'H03':("As H01; in addition the full grid key length 0..64 x output length 1..64, keyed empty messages, all block multiples.","Independent BLAKE2b from RFC 7693 (64-bit words, 128-bit counter).","14 s","4160 parameterisations times padding situations; tests have one or two. Messages beyond 2^64 bytes cannot be generated, so the high counter word stays unreached."),
'H04':("As H03 with 0..32 x 1..32, and one message of more than 2^32 bytes, so that the high counter word is used.","Independent BLAKE2s.","15 s","As H03; the counter's carry needs 4 GiB of input."),
'H05':("Up to four computations over up to three (possibly shared) contexts of the four functions, each fed in generated updates (sizes 0, 1, around one and two blocks, arbitrary), updates and finishing steps interleaved by a generated order; exhaustively every two-part split of every message up to two blocks + 6, and three-part splits at block boundaries.","Reference digest of the concatenation, and the library's own one-shot digest (differential).","15 s","The chunking is a history: buffer states after (full block, nothing left over) or shared scratch space need particular sequences."),
'H06':("Every key length 0..2 blocks + 10 for six hash configurations and several message lengths; every BLAKE2 output length with short, block-sized and long keys; then random ones, keys up to 1000 bytes.","Independent RFC 2104 over the independent hashes.","6 s","Three regimes of key length with off-by-one boundaries at the block."),
'H07':("Every requested length up to 300 and around every multiple of the hash length up to 255 outputs (thorough: every length), MD5, SHA-1, BLAKE2 with several output lengths down to 1; random salts, keys, infos; a second, shorter request.","Independent RFC 5869; exact length; prefix relation (metamorphic).","12 s","Counter byte, truncation and the empty-salt rule fail at single lengths."),
'M01':("All pairs in fields below 32 elements (257 thorough), all pairs of boundary elements in all fields, then random sequences of 0..8 related elements; operators, assigning operators, sums and products, comparison, hash, order.","Plain integers modulo the prime; canonical range.","12 s","Missing reductions are visible only for operands whose sum or difference hits particular values."),
'M02':("Every element of the small fields, boundary pairs, random related elements in all fields; inverse, division, remainder, extended Euclid incl. the prime itself.","Iterative Euclid on plain integers, Bezout identity, division identity, double inversion.","12 s","Quantified over all pairs; degenerate quotients are rare at random and generated on purpose here."),
'M03':("Every (base, exponent, modulus) up to 11, every (base, exponent) of 31; random boundary-biased bases, exponents, moduli (odd, even, one, powers of two) in all fields.","Square-and-multiply on plain integers; exponents add; Fermat.","24 s","0^0, 0^(p-1), modulus one and even moduli are single points."),
'M04':("64- and 128-bit patterns read as every primitive width and sign, integers around multiples of p, big integers up to 600 bytes, numerals in every radix with mixed case and leading zeros, invalid numerals. Not judged (unspecified): a leading '+', '_' inside numerals, conversions from floating point.","Integer value modulo the prime; 64-bit integers must be accepted; invalid numerals must be errors.","2 s","Sign and width boundaries of twelve integer types times 23 fields."),
'M05':("All one- and two-byte strings in small fields, p-2..p+20 with padding zeros, boundary and random elements, byte strings of 0..300 bytes, strings of the size of the prime +-2.","Positional value compared with the prime; both directions; reversal.","1 s","The boundary p itself and padding are points among 2^1000s."),
'M06':("Streams of random members in all fields (3 million draws per stream in fields up to 31 elements, where giving up after a few rejected candidates becomes visible), different generator seeds.","Canonical range; chi-square on elements, slices, single bits, pairs of successive draws; complete support; no repetition in large fields.","31 s","A distribution cannot be settled by examples. Biases below the resolution (relative 1e-3 in the smallest fields) go unseen."),
'M07':("The declared fields of the harness and generated Rust programs, compiled and run: random primes of 2 to 600 bits in random radixes, several declarations per invocation and several invocations per program, visibilities, first use from several threads.","Primes written down from the standards / chosen by the generator (Miller-Rabin), plain integer arithmetic.","21 s","The macro is a program generator: its input space is declarations. One invocation per module (a limit of the mashup crate)."),
'E01':("2..6 parties over all groups with boundary-biased generators and random routes of the intermediate values; streams of key pairs.","Square-and-multiply by the product of private keys; chi-square on private keys; public = g^private.","14 s","Agreement for all routes and generators; the freshness is a distribution."),
'E02':("Key pairs from generated primes with n below the field prime, any valid exponent (equivalent ones modulo the order included), boundary-biased messages below n (all messages for small keys), multiples of the factors, padded encodings; oversized byte strings. Not judged: messages between n and the field prime (outside the property).","Square-and-multiply on plain integers; round trips both ways; panic on oversized input.","8 s","Exactness for every key and message, multiples of the factors included."),
'R01':("Conversations (sends, bursts up to 270, exchanged turns) with first-in-first-out delivery per direction, some with the library's own Diffie-Hellman and HKDF, a quarter with a stream cipher that adds nothing to the text; every operation sequence up to a bound.","Each arrival equals what was sent.","13 s","Histories: who speaks when determines the ratchet steps."),
'R02':("As R01 with any delivery order, messages kept back over any number of turns, up to 2600 skipped in a chain and 300 chains, or lost.","What was sent; late or ahead according to a model of arrivals.","13 s","Stored keys per chain and number; errors need particular reorderings across turns. The original code had five such defects."),
'R03':("As R02, with copies of decrypted messages and with messages carrying contradictory counters (produced by alternative histories) inserted; replays of the oldest messages after up to 1100 turns (quick; 4200 thorough). Forged or reflected messages are not judged: without authentication in the scheme the library cannot tell them.","Refused; all later arrivals as modelled without it.","17 s","A refused message must change nothing, which shows only in what follows."),
'R04':("As R03; the user-side encryption scheme records the key of every encryption.","Reference key schedule from root secret and observed key pairs; all keys distinct; new chain per turn.","13 s","Two parties agreeing on a wrong schedule interoperate, so no test of the conversation sees it."),
'R05':("A conversation executed three times: as is, with one party's generator reseeded before a turn, with another root secret.","Non-interference: keys from the divergence on must differ (metamorphic).","21 s","A hyperproperty over pairs of executions."),
'S01':("All secrets, counts, thresholds and subsets in the fields of 3, 5, 7; random (field, n, t, secret, subset, order; also ascending, descending, the last ones); counts up to 65536, thresholds up to 256 (thorough 400); library shares and reference shares.","The secret; own interpolation at zero.","8 s","Index arithmetic errors need large or particular index pairs, surplus shares or order."),
'S02':("Degree cases, joint-distribution cases over all sets of t-1 parties in small fields, coarse ones in large fields; repeated sharings, or pairs of them, for algebraic relations; thresholds of zero and one.","Interpolation; coefficients neither zero nor repeated in large fields; chi-square; full rank of the degree-two monomials of secret and coefficients, of their logarithms modulo 1321 (61-bit field) and of their bits.","8 s","A distribution for every secret; a missing leading coefficient shows only statistically."),
'S03':("Straight-line programs of linear operations on reference sharings; pairs and lists of shares with a foreign share at any position of lists up to 1025, participants differing in any single bit.","Every register a proper sharing of the plain value; refusal exactly when participants differ; None for no shares.","2 s","Compositions, positions."),
'S04':("Programs of multiplications (single; batches 0..12, up to 320, fixed ones up to 66 000) over the network, all operand pairs of the small fields; triples uniform or with factors 0, 1, -1.","Proper sharing of the plain product, per pair in order.","15 s","Schedules: completion order of openings; sizes."),
'S05':("Programs of inversions (single; batches 0..10, and fixed ones up to 66 000) of nonzero values with dealt nonzero masks.","Independent inverse; proper sharing.","20 s","As S04."),
'S06':("Programs of ORs of 1..12 bits, all patterns of every admissible length in small fields, every length 1..68 with none, one, three and all bits set, up to 131 bits (thorough 255).","Disjunction; proper sharing.","25 s","All patterns and lengths; interpolation coefficients overflow only with at least 21 set bits."),
'S07':("Programs of selections, all conditions and operand pairs in small fields.","Chosen branch; proper sharing.","1 s","As S04."),
'S08':("n parties generate numbers with the library's sum protocol, singly and at once, some replaced by chosen contributions; same again with other generators and schedule; many generators for relations between successive contributions; up to 270 parties.","Proper sharing of the sum of exactly one contribution per party; contributions fresh, uniform, from the own generator only, with no linear, multiplicative or bitwise relation between them.","14 s","'Uniform as long as one party is honest' is a statement on distributions and on what a party's messages depend on."),
'S09':("One protocol thousands of times on two inputs of equal shape over tiny fields; large batches (up to 8400 products, 4200 inversions) on equal operands in large fields; repeated runs of larger shapes on two inputs in large fields.","Two-sample chi-square on openings (each, pairs, triples); no opening repeats or equals an input; the openings satisfy the same linear, quadratic (few openings) and multiplicative relations for both inputs.","45 s","Secrecy of openings is invisible in results."),
'S10':("Histories of ORs over several fields, lengths, threads, some abandoned half way; each in a fresh process; every ordered pair of fields with all bits set. Threads run freely, or under *paced* interleaving (`pace.rs`): only one runs at a time and the turn changes at memory allocations and network events, at random or at chosen points; single interruptions are swept over 480 points quick, up to 8000 thorough.","Each OR yields its disjunction.","20 s","Global caches: needs a history and an interleaving; a switch inside a critical window is forced instead of awaited."),
'S11':("Generated Rust programs declaring delegatable traits and types that delegate or implement them; the library's nine protocol traits on five structs.","Calls report implementation, arguments, effects and results, compared with the specification of the call; if a program does not compile, a hand-written expansion decides whether it should.","23 s","The macro's inputs are trait declarations. Limits of the macro that are not judged: the trait needs a type parameter named P; functions with a self receiver are not forwarded; the generated where clause."),
'S12':("Random straight-line programs over all operations with the library's own sharing, reconstruction and joint numbers.","Plain evaluation, each register reconstructed by the library from a random subset.","16 s","Composition of parts that pass alone."),
'S13':("Batched protocols on a lock-step network for sizes 1..33, 70 (thorough 1000) and up to 16 400 products, 4100 inversions, ORs of 131 bits.","Rounds for a batch at most those of one or two elements (metamorphic); multiplication two rounds.","9 s","A complexity guarantee for every size and laziness."),
'S14':("Programs run with the same generators on two vectors of inputs, the second also over peculiar polynomials, in lock step, and once under another schedule.","Every party makes the same calls in the same order and rounds in all runs, and contributes the same numbers (noninterference).","12 s","A pair of inputs on which one call differs; a single run on fixed inputs cannot show it."),
}
bugs={}
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json')); bugs.setdefault(m['property'],[]).append((b,m))
s=open('/verif/tools/design_head.md').read()
for i in P:
    g,o,c,w=R[i]
    s+=f"### {i} {P[i]['title']}\n\n* Generated: {g}\n* Oracle: {o}\n* Cost: {c}. Beyond tests: {w}\n\n"
s+=open('/verif/tools/design_tail.md').read()
s+="\n## Planted bugs and the checks that catch them\n\nEvery change compiles and passes the 29 stable tests; each is caught by the quick check of its own property unless noted.\n\n| change | property / caught by | what it needs to manifest |\n|---|---|---|\n"
for i in P:
    for b,m in bugs.get(i,[]):
        s+=f"| {b} | {i} | {m['needs']} |\n"
open('/verif/DESIGN.md','w').write(s)
