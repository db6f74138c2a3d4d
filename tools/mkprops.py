#!/usr/bin/env python3
"""Development helper: (re)writes properties.jsonl. The committed properties.jsonl is the source of truth."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H="jester_hashes/src/"
p("H01","MD5 digests every message as RFC 1321 specifies",
 "For every byte string, hashing it with MD5 yields the 16-byte RFC 1321 digest, including empty messages, messages that end anywhere relative to the 64-byte block and padding boundaries, and messages longer than 2^32 bits. The reported block size (64) and output size (16) are those of MD5.",
 ["inputs"],"every message of every length and content",
 "Three fixed messages are digested today; padding has 64 length residues, the length field has 64 bits and the compression function has 512-bit inputs.",
 [H+"md5.rs",H+"lib.rs"],[("compression function","md5.rs round_function"),("padding and length encoding","md5.rs finish_hash"),("little-endian load/store","lib.rs align_to_u32a_le, md5.rs HashValue::raw")],
 observe=["digest_message(..).raw()","block_size","output_size"])
p("H02","SHA-1 digests every message as FIPS 180-4 specifies",
 "For every byte string, hashing it with SHA-1 yields the 20-byte FIPS 180-4 digest, including empty messages, messages that end anywhere relative to the 64-byte block and padding boundaries, and messages longer than 2^32 bits. The reported block size (64) and output size (20) are those of SHA-1.",
 ["inputs"],"every message of every length and content",
 "Three fixed messages are digested today.",
 [H+"sha1.rs",H+"lib.rs"],[("compression function","sha1.rs round_function"),("padding and length encoding","sha1.rs finish_hash"),("big-endian load/store","lib.rs align_to_u32a_be, sha1.rs HashValue::raw")],
 observe=["digest_message(..).raw()","block_size","output_size"])
p("H03","BLAKE2b matches RFC 7693 for every key, output length and message",
 "For every key of 0 to 64 bytes, every output length of 1 to 64 bytes and every message, BLAKE2b yields exactly the RFC 7693 digest of that parameterisation. The digest has exactly the requested length, which is also the reported output size, and the reported block size is 128.",
 ["inputs","configurations"],"all (key, output length, message) triples in the RFC's parameter space",
 "Six fixed triples are tested, none with a key at a length boundary or with a keyed empty or exactly block-aligned message.",
 [H+"blake/blake2b.rs",H+"blake/mod.rs"],[("parameter block and key block","blake2b.rs init_hash"),("deferred last block","blake2b.rs update_hash"),("byte counter and final flag","blake2b.rs finish_hash, blake2b_compress"),("mixing and permutation","blake/mod.rs blake2_mix, SIGMA")],
 observe=["digest_message(..).raw()","output_size","block_size"])
p("H04","BLAKE2s matches RFC 7693 for every key, output length and message",
 "For every key of 0 to 32 bytes, every output length of 1 to 32 bytes and every message, including messages longer than 2^32 bytes, BLAKE2s yields exactly the RFC 7693 digest of that parameterisation. The digest has exactly the requested length, which is also the reported output size, and the reported block size is 64.",
 ["inputs","configurations"],"all (key, output length, message) triples in the RFC's parameter space",
 "Six fixed triples are tested, none near a key-length or block boundary, and none long enough to reach the high counter word.",
 [H+"blake/blake2s.rs",H+"blake/mod.rs"],[("parameter block and key block","blake2s.rs init_hash"),("deferred last block","blake2s.rs update_hash"),("byte counter and final flag","blake2s.rs finish_hash, blake2s_compress"),("mixing and permutation","blake/mod.rs blake2_mix, SIGMA")],
 observe=["digest_message(..).raw()","output_size","block_size"])
p("H05","Incremental hashing does not depend on how the message is chunked",
 "For each of the four hash functions, feeding a message through any sequence of incremental updates (of any sizes, including empty ones) and finishing yields the digest of the concatenated message. Any number of hash computations may be in progress at once, interleaved in any order, without affecting each other.",
 ["inputs","histories"],"all partitions of all messages into update calls, for every hash function and key/output configuration, and all interleavings of several computations",
 "One three-part split is tested per hash; buffering state has one case per (buffered length, chunk length) pair.",
 [H+"md5.rs",H+"sha1.rs",H+"blake/blake2b.rs",H+"blake/blake2s.rs"],[("buffering of partial blocks","update_hash in each hash module"),("flush at the end","finish_hash in each hash module")],
 state=[("buffered partial block","bytes fed but not yet compressed","hash state structs"),("message length","amount of data already compressed","hash state structs")],
 observe=["update_hash / finish_hash call sequences"])
p("H06","HMAC equals RFC 2104 for every hash function, key and message",
 "For every supported hash function, every key length (empty, shorter than, equal to, or longer than the hash's block) and every message, the message authentication code is exactly the RFC 2104 value over that hash.",
 ["inputs","configurations"],"all keys and messages, for MD5, SHA-1, BLAKE2b and BLAKE2s (every output length, keyed or not)",
 "One key of three bytes and one message are tested; keys longer than a block are never exercised.",
 [H+"hmac.rs"],[("key shortening and padding","hmac.rs hmac, pad"),("inner and outer hash","hmac.rs hmac")],observe=["hmac return value"])
p("H07","HKDF derives exactly the requested RFC 5869 key material",
 "For every hash function, salt, input keying material, context info and requested length from 0 up to 255 hash outputs, key derivation returns exactly the requested number of bytes and they equal the RFC 5869 output. A shorter request with the same inputs is therefore always a prefix of a longer one.",
 ["inputs","configurations"],"all (salt, ikm, info, length) tuples with length <= 255*HashLen, over all supported hash functions",
 "The existing test is an empty TODO.",
 [H+"kdf.rs",H+"hmac.rs"],[("extract","kdf.rs hkdf_derive_key (salted hmac)"),("expand with chained counter blocks","kdf.rs hkdf_derive_key loop")],observe=["hkdf_derive_key return value"])

M="jester_maths/src/prime.rs"
p("M01","Field addition, subtraction and multiplication are exact modulo the prime",
 "For all elements of every prime field, sum, difference, product and iterated sums and products (also over empty and single-element sequences) are the integer results reduced modulo the field's prime. Every result is the canonical representative in [0, p), so two elements are equal exactly when they are congruent, and hash and order agree with that.",
 ["inputs","configurations"],"all operand tuples in all 14 predefined fields",
 "One addition and one subtraction in one field are tested; wrap-around exactly at the prime, zero results and other fields are not.",
 [M],[("operator impls","prime.rs prime_fields! Add/Sub/Mul/Sum/Product/Zero/One"),("reduction after each operation","prime.rs RemAssign in each impl")],observe=["as_uint of results"])
p("M02","Inverses and the extended Euclidean algorithm are correct in every field",
 "For every nonzero element x of every field, x times its inverse is one and the inverse is canonical; inverting twice returns x. For all pairs of elements (and the field prime itself) the extended Euclidean algorithm returns their integer gcd together with coefficients satisfying the Bezout identity modulo the prime, and division and remainder on representatives satisfy a = (a/b)*b + a%b with a%b < b.",
 ["inputs","configurations"],"all nonzero elements / all pairs in all predefined fields, up to 2048-bit primes",
 "No test calls inversion directly; only the 7-element field is exercised indirectly.",
 [M],[("extended Euclid on representatives","prime.rs extended_greatest_common_divisor"),("inverse","prime.rs inverse"),("integer division and remainder","prime.rs Div/Rem")],observe=["inverse, extended_greatest_common_divisor, / and %"])
p("M03","Exponentiation is exact for every base, exponent and modulus",
 "Raising any field element to any exponent element equals the integer power reduced modulo the field's prime, so exponents add under multiplication and Fermat's little theorem holds. Exponentiation under an explicit nonzero modulus element equals the integer power reduced modulo that modulus.",
 ["inputs","configurations"],"all bases, exponents and moduli in all predefined fields",
 "No test calls exponentiation on field elements except through one Diffie-Hellman run with random keys.",
 [M],[("modular exponentiation","prime.rs PrimeField::pow, PrimeField::modpow")],observe=["pow, modpow results"])
p("M04","Integers and numerals convert to the congruent field element",
 "Converting any machine integer of any width and sign, any big integer, or any valid numeral in any radix from 2 to 36 yields the field element congruent to that integer (negative integers to the additive inverse of their magnitude), in canonical form, or reports that it is not representable, never a wrong value and never a crash. Every 64-bit integer is representable, invalid numerals are rejected with an error, and converting an element to a big integer and back is the identity.",
 ["inputs","configurations"],"all integers of all primitive widths, all big integers, all numeral strings, all predefined fields",
 "Only non-negative literals smaller than the prime are converted in tests; multiples of the prime, negatives and extreme values are not.",
 [M],[("FromPrimitive","prime.rs prime_fields! from_i64/from_u64"),("From<BigUint>","prime.rs prime_fields! From"),("from_str_radix","prime.rs prime_fields! Num")],observe=["from_i64 etc., from_str_radix, as_uint, BigUint::from"])
p("M05","Byte encodings round-trip and out-of-range encodings are refused",
 "For every field element, encoding to little- or big-endian bytes and decoding with the same endianness returns the element, and the two encodings are each other's reversal. Decoding any byte string yields the element equal to the encoded integer when that integer is smaller than the prime (leading zero bytes are harmless) and yields nothing otherwise.",
 ["inputs","configurations"],"all elements and all byte strings of any length, in all predefined fields",
 "No test touches the byte encodings.",
 [M],[("decoding with range check","prime.rs from_bytes_le, from_bytes_be"),("encoding","prime.rs as_bytes_le, as_bytes_be")],observe=["from_bytes_*, as_bytes_* results"])
p("M06","Random field members are in range and uniformly distributed",
 "Drawing a random member of any field from a uniform random generator always yields a canonical element, and every element of the field is drawn with the same probability; in particular neither zero nor the top of the range is missing or favoured. Successive draws are independent.",
 ["inputs","configurations"],"all generator outputs (seeds), all predefined fields; distribution judged statistically with a fixed false-alarm bound",
 "Tests draw a handful of members from the operating system generator and never look at their distribution.",
 [M],[("rejection sampling below the prime","prime.rs generate_random_member")],observe=["generate_random_member results for seeded generators"])
p("M07","A declared field computes modulo exactly the prime it was declared with",
 "Every predefined field's modulus is the intended standard prime (the Mersenne primes and the RFC 5114 primes). A user-declared field, for any prime written in any radix and any number of declarations together, has exactly that modulus, obeys the field laws, and does not influence any other declared field.",
 ["programs","configurations"],"all predefined fields; all user programs that declare fields with a prime literal and radix",
 "Tests declare one field (7) and never check the 1024- and 2048-bit literals.",
 [M],[("field declaration macro","prime.rs prime_fields!"),("modulus literals","prime.rs predefined fields")],observe=["field_prime().as_uint()","results of operations in generated field types"])

p("E01","Diffie-Hellman parties always agree on the secret",
 "For every group, generator and random generator, a generated public key equals the generator raised to the generated private key, and the private key is a fresh uniform member of the field. Any number of parties that exchange public values in any order of rounds compute the same shared secret, which equals the generator raised to the product of their private keys.",
 ["inputs","configurations"],"all generators, seeds, numbers of parties and round orders in all predefined fields",
 "One two-party exchange in one group is tested.",
 ["jester_encryption/src/diffie_hellman.rs",M],[("key generation","diffie_hellman.rs generate_asymmetrical_key_pair"),("shared secret","diffie_hellman.rs generate_shared_secret")],observe=["key pairs and shared secrets"])
p("E02","RSA encryption and decryption are mutually inverse and exact",
 "For every valid RSA key pair over a prime field and every message whose little-endian integer value m is smaller than the modulus n, encryption yields the little-endian encoding of m^e mod n, decryption yields that of c^d mod n, and decrypting an encryption (or encrypting a decryption) returns m. A message or cipher whose integer value does not fit the field is refused with a panic instead of being silently transformed.",
 ["inputs","configurations"],"all key pairs whose modulus fits the field, all messages below the modulus, all oversized byte strings",
 "RSA has no tests.",
 ["jester_encryption/src/rsa.rs",M],[("encrypt/decrypt via modular exponentiation","rsa.rs encrypt_message, decrypt_message"),("range check","rsa.rs, prime.rs from_bytes_le")],observe=["encrypt_message / decrypt_message bytes"])

R="jester_double_ratchet/src/lib.rs"
rstate=[("root chain key, sending and receiving chain keys","secret state advanced per turn / per message",R),("chain lengths","message counters of the current and previous chains",R),("missed message keys","keys of messages skipped so far, by ratchet key and number",R)]
p("R01","Every in-order conversation decrypts to what was sent",
 "Two parties that start a double-ratchet session from the same root secret and exchange any number of messages, in any alternation of speakers and with both sides possibly sending at the same time, recover every message exactly when messages in each direction arrive in the order they were sent. Decryption then never reports an error.",
 ["histories","inputs"],"all conversation histories with per-direction FIFO delivery, all message contents, all seeds",
 "The only ratchet test is a stub that panics.",
 [R],[("chain initialisation","initialize_sending, initialize_receiving, decrypt_first_message"),("symmetric ratchet","encrypt_message, decrypt_message"),("Diffie-Hellman ratchet","decrypt_message")],state=rstate,observe=["plaintexts and errors returned by decryption"])
p("R02","Delayed and reordered messages still decrypt, lost ones harm nothing",
 "However messages in either direction are delayed, reordered or lost, including the very first reply and across any number of ratchet turns, every message that does arrive decrypts to exactly what was sent. A message that arrives ahead of others decrypts normally; one that arrives after a later message of its sender was already received is delivered as an out-of-order message together with its plaintext.",
 ["histories","fault_sequences"],"all conversation histories combined with all delay, reorder and loss patterns",
 "No test exists for out-of-order handling.",
 [R],[("skipped-key bookkeeping","decrypt_message, detect_missing_messages"),("header counters","encrypt_message, decrypt_message")],state=rstate,observe=["plaintexts and errors returned by decryption"])
p("R03","Duplicated or stale messages are refused and leave the session intact",
 "A message that was already decrypted, whether duplicated immediately or replayed after any number of further messages and turns, is refused with an error and never yields a plaintext again. A refused message (replayed, or carrying a header that contradicts what was already received, or that refers to an earlier turn when nothing has been received yet) changes nothing: all other messages of the conversation, past and future, decrypt as if it had never arrived.",
 ["histories","fault_sequences"],"all conversation histories with replays and contradictory headers inserted at any point",
 "No test covers replay or invalid headers.",
 [R],[("single use of skipped keys","decrypt_message"),("header validation","detect_missing_messages")],state=rstate,observe=["result of decrypting a duplicate, and of everything after it"])
p("R04","Message keys follow the double ratchet key schedule and are used once",
 "Every message is encrypted under exactly the key that the Double Ratchet specification derives for it: a root chain fed alternately with the Diffie-Hellman outputs of the newest key pairs, and a constant-input symmetric chain per turn. No two messages of a conversation are ever encrypted under the same key, and each turn (reply) starts a new chain.",
 ["histories"],"all conversation histories, including reordering and loss",
 "No test derives a single key.",
 [R],[("root key derivation","initialize_receiving, decrypt_first_message, decrypt_message"),("chain key derivation","encrypt_message, decrypt_message")],state=rstate,observe=["keys handed to the encryption scheme"])
p("R05","Each turn refreshes the session with new randomness",
 "Whenever a party receives the first message of a new turn it generates a fresh Diffie-Hellman key pair from its random generator, and everything it sends afterwards depends on it: two executions that agree up to that point but differ in that randomness encrypt all later messages of that party, and everything the peer sends after receiving one of them, under different keys. Sessions started from different root secrets never share a message key.",
 ["histories"],"all conversation prefixes, all divergence points and seeds",
 "No test compares executions.",
 [R],[("fresh key pair per turn","decrypt_message, decrypt_first_message, initialize_*"),("root chain mixing","RootKdf::derive_key call sites")],state=rstate,observe=["keys handed to the encryption scheme in twin executions"])

S="jester_sharing/src/"
SH=S+"threshold_sharing/shamir_secret_sharing.rs"
p("S01","Any threshold-sized set of shares reconstructs the secret",
 "For every secret, number of shares n and threshold t with 2 <= t <= n < p, sharing produces n shares numbered 1 to n, and any subset of at least t of them, in any order, reconstructs exactly the secret. This holds in every field and for thresholds and counts as large as the field allows.",
 ["inputs","configurations"],"all secrets, seeds, (n, t) pairs and subsets/orders of at least t shares, in all fields",
 "Only n = t = 5 and n = t = 2 over the 7-element field are tested; surplus shares, subsets and large parameters are not.",
 [SH],[("polynomial evaluation","shamir_secret_sharing.rs generate_shares"),("Lagrange interpolation at zero","shamir_secret_sharing.rs reconstruct_secret")],observe=["generate_shares, reconstruct_secret"])
p("S02","Fewer shares than the threshold reveal nothing about the secret",
 "For every secret, the joint distribution of any t-1 shares is uniform over the field and independent of the secret, and fresh randomness is used for every sharing. All n shares always lie on one polynomial of degree at most t-1 whose value at zero is the secret. A threshold below two, at which single shares would be the secret, is refused.",
 ["inputs","configurations"],"all secrets and all subsets of t-1 shares; distribution judged statistically over generator seeds with a fixed false-alarm bound",
 "No test looks at insufficient share sets.",
 [SH],[("independent uniform coefficients","shamir_secret_sharing.rs generate_shares")],observe=["joint distribution of shares over seeds"])
p("S03","Linear operations on shares act on the secrets",
 "Adding or subtracting shares of two secrets, summing a list of shares, and adding, subtracting or multiplying by a public scalar yield shares that reconstruct to the same operation applied to the secrets, for any t-subset and any composition of these operations. Combining shares that belong to different participants is refused, and summing no shares yields nothing.",
 ["inputs","histories"],"all linear expressions over shared secrets, all (n, t), all fields",
 "One addition over the 7-element field is tested, by adding the raw values rather than through the API.",
 [SH,S+"threshold_sharing/mod.rs"],[("share arithmetic","shamir_secret_sharing.rs LinearSharingScheme impl")],observe=["reconstruction of combined shares","panic on mismatched participants"])
p("S04","Multiplying shared values yields shares of the product",
 "For all shared operands, any number of parties, any threshold and any valid multiplication triples, joint multiplication gives every party a share of the product, and the shares form a proper sharing of the original threshold. Batched multiplication of any number of pairs (including none) yields the products in the order of the pairs, and both hold for every order in which parties run and messages arrive.",
 ["inputs","schedules","configurations"],"all operand values, batch sizes, (n, t), triples, and all interleavings of party execution and message delivery",
 "Tests run a single simulated party with all-ones triples and no randomness.",
 [S+"multiplication/beaver_randomization_multiplication.rs"],[("Beaver triples masking","multiply, unbounded_multiply")],observe=["reconstruction from the parties' result shares"])
p("S05","Inverting shared values yields shares of the inverses",
 "For all shared nonzero secrets, any number of parties and threshold, joint inversion (single or batched, in order, also for an empty batch) gives the parties a proper sharing of each multiplicative inverse, provided the jointly generated masks are nonzero. This holds for every order in which parties run and messages arrive.",
 ["inputs","schedules","configurations"],"all nonzero secrets, batch sizes, (n, t), masks, and all interleavings",
 "Tests run one simulated party over the 7-element field without real sharing.",
 [S+"inversion/unbounded_inversion.rs"],[("masked opening and local inversion","unbounded_inverse, inverse")],observe=["reconstruction from the parties' result shares"])
p("S06","Joint OR of shared bits yields a share of their disjunction",
 "For every number l >= 1 of shared bits with l + 1 < p and every bit pattern, any number of parties and any threshold, the joint OR gives the parties a proper sharing of 1 if some bit is set and of 0 otherwise, provided the jointly generated masks are nonzero; the single-bit form is the identity. This holds for every order in which parties run and messages arrive.",
 ["inputs","schedules","configurations"],"all bit vectors, (n, t), fields, masks, and all interleavings",
 "Two three-bit vectors over the 7-element field with one simulated party are tested.",
 [S+"shared_or_function/joint_unbounded_or.rs"],[("interpolating polynomial of the bit count","unbounded_shared_or"),("inverse Vandermonde entries","get_inverted_vandermonde_*"),("unbounded powers with cancelling masks","unbounded_shared_or")],observe=["reconstruction from the parties' result shares"])
p("S07","Conditional selection returns the branch chosen by the shared condition",
 "For every shared condition bit and every pair of shared values, any number of parties and any threshold, joint selection gives the parties a proper sharing of the first value if the condition is 1 and of the second if it is 0. This holds for every order in which parties run and messages arrive.",
 ["inputs","schedules","configurations"],"all conditions, operands, (n, t), and all interleavings",
 "No test calls conditional selection.",
 [S+"conditional_selection/joint_conditional_selection.rs"],[("condition * (lhs - rhs) + rhs","joint_conditional_selection")],observe=["reconstruction from the parties' result shares"])
p("S08","A jointly generated random number sums fresh contributions of all parties",
 "Joint random number generation gives the parties a proper sharing of the sum of one freshly drawn contribution per party, for any number of parties, threshold and schedule. Each contribution is a uniform field member drawn from the party's own generator, so the result is uniform as long as one party is honest, whatever the others contribute.",
 ["inputs","schedules","configurations"],"all seeds, (n, t), adversarial contributions of the other parties, and all interleavings; distribution judged statistically",
 "The default generation scheme is only compiled in a doc test; unit tests use a test-only variant with one party.",
 [S+"random_number_generation/sum_random_number_generation.rs"],[("distribute a random member and sum received shares","generate_random_number_sharing")],observe=["distributed secrets, resulting shares"])
p("S09","Joint protocols open nothing but freshly masked values",
 "During joint multiplication, inversion, selection and OR, every value opened to the parties is masked by fresh randomness that is used once: for any two sets of inputs with the same public result shape, the joint distribution of all opened values is the same. In particular masks and triples are never reused between elements of a batch.",
 ["inputs","histories"],"all inputs; distribution of the transcript judged statistically over mask randomness with a fixed false-alarm bound",
 "Tests use constant triples and never look at the opened values.",
 [S+"multiplication/beaver_randomization_multiplication.rs",S+"inversion/unbounded_inversion.rs",S+"shared_or_function/joint_unbounded_or.rs"],[("masking before opening","every reveal_shares call site")],observe=["sequence of opened values on the communication layer"])
p("S10","Joint OR results do not depend on what was computed before",
 "The result of a joint OR is the same whatever other joint ORs, of any size and over any field, the process has performed before or is performing concurrently. Cached intermediate results never leak from one field or size to another.",
 ["histories","schedules"],"all sequences of OR computations over several fields and sizes in one process, in any order, on one or several threads",
 "Tests run two computations of equal size over one field per process.",
 [S+"shared_or_function/joint_unbounded_or.rs"],[("process-wide matrix caches keyed by field type and position","get_inverted_vandermonde_upper, get_inverted_vandermonde_lower")],state=[("matrix caches","memoised matrix entries per field",S+"shared_or_function/joint_unbounded_or.rs")],observe=["OR results along a history in a fresh process"])
p("S11","A delegated protocol behaves exactly like its delegate",
 "For every protocol trait declared delegatable, a type that names a delegate gets each of the trait's functions forwarded to that delegate with all arguments in order and the result returned unchanged. A type that instead implements the protocol under its own marker gets its own implementation, and both kinds can be mixed freely in one type.",
 ["programs","inputs"],"all trait declarations in the supported form (type and lifetime parameters, where clauses, several functions and parameters) and all argument values",
 "Only the library's own traits with one function each are used.",
 ["jester_sharing/jester_sharing_proc/src/lib.rs"],[("attribute macro generating Impl, Marker and Delegate traits and forwarding impls","delegatable_protocol")],observe=["calls received by generated delegates"])
p("S12","Composed computations on shares equal the computation on the secrets",
 "For every program that combines sharing, linear operations, joint multiplication, inversion, selection, OR and random numbers on shared values, the reconstructed results equal the same program evaluated on the plain secrets. This holds for any number of parties, threshold, schedule, and any subset of at least t parties that reconstructs.",
 ["programs","schedules"],"all finite straight-line programs over the sharing operations, all inputs, (n, t) and interleavings",
 "No test composes protocols except a double inversion with one simulated party.",
 ["jester_sharing/src"],[("all sharing protocols","jester_sharing/src")],observe=["reconstructed outputs"])
p("S13","Batched protocols need a number of rounds independent of the batch size",
 "Batched multiplication, batched inversion and joint OR perform the communication of all their elements in parallel: the number of sequential communication rounds does not grow with the number of elements. Batched multiplication needs one opening round beyond obtaining triples.",
 ["inputs","schedules"],"all batch sizes and (n, t) under lock-step message delivery",
 "No test has a network in which rounds exist.",
 [S+"multiplication/beaver_randomization_multiplication.rs",S+"inversion/unbounded_inversion.rs",S+"shared_or_function/joint_unbounded_or.rs"],[("joined opening futures","join_all call sites")],observe=["rounds counted by a lock-step network"])
p("S14","What the parties communicate does not depend on the secrets",
 "Which communication calls a party makes (openings, distributions, requests for triples and their counts), in which order and in which round, is fixed by the program and public parameters: it is the same for every party, for all secrets and all sharings of them, and under every order of message delivery. The numbers a party contributes from its generator do not depend on the secrets either, and linear operations communicate nothing.",
 ["inputs","schedules","programs"],"all pairs of input vectors on which a program is defined, all sharings, (n, t), fields and interleavings",
 "Tests never look at the communication layer, and with one simulated party nothing is communicated.",
 [S+"multiplication/beaver_randomization_multiplication.rs",S+"inversion/unbounded_inversion.rs",S+"shared_or_function/joint_unbounded_or.rs",S+"conditional_selection/joint_conditional_selection.rs",S+"random_number_generation/sum_random_number_generation.rs"],[("communication calls of every protocol","reveal_shares, distribute_secret and obtain_beaver_triples call sites")],observe=["calls each party makes on the communication layer"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
