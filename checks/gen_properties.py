#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
R="Reference_Implementation_KEM"; A="AVX_Implementation_KEM"; UR="Variants/uSaber-90s/ref"; UA="Variants/uSaber-90s/avx2"
X="Variants/SaberX4_avx2"; M0="Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem"; M4="Cortex-M_Implementation_KEM/Cortex-M4/src/saber"
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
KEM=[R+"/kem.c",A+"/kem.c",UR+"/kem.c",UA+"/kem.c",X+"/kem4x.c",M0+"/src/kem.c",M4+"/m4-striding/kem.c",M4+"/m4-tc4kara/kem.c"]
CPA=[f.replace("kem4x.c","SABER_indcpa.c").replace("kem.c","SABER_indcpa.c") for f in KEM]
p("P01","Decapsulation is implicit-rejection FO for every ciphertext and key",
 "For every secret key and every ciphertext byte string, decapsulation decrypts to m', re-encrypts m' with the coins derived from m' and the stored public-key hash, and returns Hash(K'||Hash(c)) if the re-encryption equals the received ciphertext in every byte, and Hash(z||Hash(c)) with the stored rejection secret z if any single bit differs. It always returns 0 and always fills the whole shared secret. This holds in every implementation and parameter set, and separately for each of the four lanes of the batched implementation.",
 ["inputs","configurations"],"every (secret key, ciphertext) pair, every implementation x parameter set",
 "The known-answer and round-trip tests only ever decapsulate honest ciphertexts, so the mismatch branch, the length of the comparison, the source of the rejection value and all Cortex-M and X4 code are never exercised.",
 KEM+[R+"/verify.c"],[("crypto_kem_dec: decrypt, re-encrypt, verify, cmov, hash",R+"/kem.c"),("verify/cmov",R+"/verify.c"),("crypto_kem_dec over four lanes",X+"/kem4x.c"),("indcpa_kem_enc_cmp in-place comparison",M4+"/m4-striding/SABER_indcpa.c")])
p("P02","Encapsulation computes the specified ciphertext and key for all inputs",
 "For every public key and every 32 bytes of system randomness, encapsulation derives m by hashing the randomness, derives key material and coins from m and the hash of the public key, writes the encryption of m under the public key with these coins as the ciphertext, and returns Hash(K||Hash(c)) as shared secret (the Cortex-M0 code has the first-round rounding of the message polynomial, without the constant h1). The result is the same function of (public key, randomness) in every implementation of a parameter set, so that independently built peers agree.",
 ["inputs","configurations"],"every public key byte string and every 32-byte random draw, every implementation x parameter set",
 "100 fixed vectors per configuration sample a vanishing part of the input space; X4 is only tested against itself and the Cortex-M code not at all.",
 KEM+CPA,[("crypto_kem_enc",R+"/kem.c"),("indcpa_kem_enc",R+"/SABER_indcpa.c"),("indcpa_kem_enc4x",X+"/SABER_indcpa.c")])
p("P03","Key generation computes the specified key pair for all randomness",
 "For every value of the three 32-byte random draws, key generation outputs the public key (packed rounded A^T s, then the hashed matrix seed) and the secret key (packed s, then the public key, the hash of the public key and the rejection secret z), with A and s expanded from the seeds as specified. The result is the same function of the randomness in every implementation of a parameter set.",
 ["inputs","configurations"],"every value of the random draws, every implementation x parameter set",
 "Tests sample 100 seeds per configuration; X4 and Cortex-M key generation are never compared with anything.",
 KEM+CPA,[("crypto_kem_keypair",R+"/kem.c"),("indcpa_kem_keypair",R+"/SABER_indcpa.c"),("indcpa_kem_keypair4x",X+"/SABER_indcpa.c")])
p("P04","Every polynomial product is the exact negacyclic product modulo q or p",
 "Wherever the scheme multiplies polynomials (A^T s and A s' modulo q, b s' and b' s modulo p), the result equals schoolbook multiplication in Z[x]/(x^256+1) reduced modulo q (respectively p), for every value of every coefficient that the 16-bit storage can hold, including the extreme ones. No intermediate overflow, lost carry, dropped high bit or special coefficient value ever changes a result bit that is used.",
 ["inputs","configurations"],"all pairs of 256-coefficient operands, all implementations of the multiplication (Toom-Cook/Karatsuba C, AVX2, Cortex-M0 memory-efficient Karatsuba, Cortex-M4 assembly)",
 "Tests multiply a few thousand pseudo-random polynomials; coefficient patterns that trigger a rare overflow or a special case are not reached, and the Cortex-M multipliers are never run.",
 [R+"/poly_mul.c",A+"/polymul/toom-cook_4way.c",A+"/polymul/scm_avx.c",X+"/polymul/toom-cook_4way.c",UR+"/poly_mul.c",UA+"/polymul/toom-cook_4way.c",M0+"/src/poly_mul.c",M4+"/m4-striding/poly_mul.c"],
 [("toom_cook_4way, karatsuba_simple, poly_mul_acc",R+"/poly_mul.c"),("toom_cook_4way_avx",A+"/polymul/toom-cook_4way.c"),("pol_mul, unrolled_kara_mem",M0+"/src/poly_mul.c")])
p("P05","Serialisation is a lossless bit-exact inverse pair in every implementation",
 "For every width used on the wire (1, 3, 4, 6, 10 and 12 or 13 bits per coefficient), packing a polynomial writes exactly bit j of coefficient i to bit (i*width+j) of the byte string, nothing else and nothing missing, and unpacking any byte string yields those coefficients again. Consequently unpack(pack(x)) = x reduced to the width and pack(unpack(y)) = y for every byte string, and all implementations share one format. (Message packing takes coefficients that are single bits.)",
 ["inputs","configurations"],"every coefficient array and every byte string, every pack/unpack routine of every implementation",
 "Round trips of random coefficients cannot show the absence of an aliasing of rarely used bits, and packing of values above the width (which must be masked) is never tested.",
 [R+"/pack_unpack.c",A+"/pack_unpack.c",UR+"/pack_unpack.c",UA+"/pack_unpack.c",X+"/pack_unpack.c",M0+"/src/pack_unpack.c",M4+"/m4-striding/pack_unpack.c"],
 [("POLT2BS/BS2POLT, POLq2BS/BS2POLq, POLp2BS/BS2POLp, POLmsg2BS/BS2POLmsg",R+"/pack_unpack.c"),("POLVEC2BSX4/BS2POLVECX4 family",X+"/pack_unpack.c")])
p("P06","Secret coefficients follow the specified distribution bit for bit",
 "Each secret coefficient, modulo q, is the Hamming weight of one half minus the Hamming weight of the other half of its own mu consecutive bits of the seed expansion (for the uniform variant: the two's-complement value of its own 2 bits), so it always lies in [-mu/2, mu/2], every expansion bit is used exactly once and no bit is shared by two coefficients. This holds for every expansion string and every parameter set.",
 ["inputs","configurations"],"every expansion byte string, mu in {6,8,10} and the 2-bit uniform variant, every implementation",
 "A known-answer test cannot show that no bit is reused or ignored for inputs outside its 100 seeds, and Cortex-M samplers are not run.",
 [R+"/cbd.c",A+"/cbd.c",UR+"/cbd.c",UA+"/cbd.c",X+"/cbd.c",M0+"/src/cbd.c",M0+"/src/poly.c",M4+"/m4-striding/cbd.c"],
 [("cbd",R+"/cbd.c"),("GenSecret",R+"/poly.c"),("GenSecret with block-wise expansion",M0+"/src/poly.c")])
p("P07","SHA-3 and SHAKE are correct for every input and output length",
 "The hash and XOF functions (SHA3-256, SHA3-512, SHAKE128, SHAKE256 and cSHAKE with a 2-byte customisation, one-shot, block-wise and four-way) absorb every input byte exactly once, pad with the right domain byte and final bit for every input length including multiples of the rate and the empty input, and deliver exactly the requested number of output bytes of the sponge for every output length, writing nothing beyond. This also holds when input and output buffers are the same.",
 ["inputs","configurations"],"all message contents; all message and output lengths (checked exhaustively up to several rates, plus the lengths the KEM uses)",
 "The KEM calls these functions with a handful of fixed lengths only, so boundary lengths (rate-1, rate, 0) never occur in a test.",
 [R+"/fips202.c",A+"/fips202.c",UR+"/fips202.c",UA+"/fips202.c",X+"/fips202.c",X+"/fips202x4.c",M0+"/src/fips202.c"],
 [("keccak_absorb / keccak_squeezeblocks / shake128 / sha3_256 / sha3_512",R+"/fips202.c"),("shake128x4 and friends",X+"/fips202x4.c")])
p("P08","The Keccak permutation equals Keccak-f[1600] on every state",
 "For every 1600-bit state the permutation used by the hash functions returns exactly the 24-round Keccak-f[1600] image, in the portable, four-way SIMD and other C implementations. In the four-way version each lane is permuted independently of the other three.",
 ["inputs","configurations"],"all 2^1600 states (and all 2^6400 four-way states)",
 "Tests evaluate the permutation on a few thousand pseudo-random states; a defect tied to a rare state pattern, or a four-way lane mix-up that is self-consistent, passes.",
 [R+"/fips202.c",A+"/fips202.c",UR+"/fips202.c",UA+"/fips202.c",X+"/fips202.c",X+"/keccak4x/KeccakP-1600-times4-SIMD256.c"],
 [("KeccakF1600_StatePermute",R+"/fips202.c"),("KeccakP1600times4_PermuteAll_24rounds",X+"/keccak4x/KeccakP-1600-times4-SIMD256.c")])
p("P09","SHA-2 and AES-CTR of the 90s variants are correct for every length",
 "SHA-256 and SHA-512 give the FIPS 180-4 digest for every message and every message length, including lengths at the padding boundaries, and the AES-256-CTR expansion delivers for every key and every output length the first bytes of the counter-mode key stream with the counter advancing by exactly one per 16-byte block. No output byte beyond the requested length is written.",
 ["inputs","configurations"],"all message contents, keys and nonces; all lengths (checked exhaustively up to several blocks, plus the lengths the KEM uses)",
 "The KEM uses a few fixed lengths, so padding boundaries, partial final blocks and counter carries are not reached by any test.",
 [UR+"/sha256.c",UR+"/sha512.c",UR+"/aes256ctr.c",UR+"/symmetric-aes.c",UA+"/crypto_stream_aes256ctr.c",UA+"/symmetric-aes.c"],
 [("sha256, sha512 padding",UR+"/sha256.c"),("aes256ctr_prf, br_aes_ct64_ctr_run",UR+"/aes256ctr.c"),("crypto_stream_aes256ctr",UA+"/crypto_stream_aes256ctr.c")])
p("P10","The deterministic random generator follows the CTR-DRBG rules",
 "After initialisation the generator returns, for every request length, successive AES-256 encryptions of a 128-bit big-endian counter that advances by one per block with full carry, and then replaces key and counter by three further blocks, so that no two requests reuse key stream. Initialisation mixes in every byte of the entropy input and of the optional personalisation string, and the four batched generators are each updated in the same way.",
 ["inputs","histories","configurations"],"every state of the generator, every request length and every sequence of requests",
 "Tests use 32- and 48-byte requests from 100 seeds; counter carries past a byte and lengths that are not multiples of 16 do not occur.",
 [R+"/rng.c",A+"/rng.c",UR+"/rng.c",UA+"/rng.c",X+"/rng.c"],
 [("randombytes, randombytes_init, AES256_CTR_DRBG_Update",R+"/rng.c")])
p("P11","The seed expander never exceeds its budget nor repeats its stream",
 "For every seed, diversifier and sequence of requests, the seed expander delivers consecutive bytes of AES-256 in counter mode (32-bit block counter with carry) without skipping or repeating a byte across calls, refuses an over-long maximum length, a null output and any request not below the remaining budget without producing output, and decreases the budget by exactly the number of bytes delivered.",
 ["inputs","histories","configurations"],"every expander state, request length and call sequence",
 "No test calls the seed expander at all.",
 [R+"/rng.c",A+"/rng.c",UR+"/rng.c",UA+"/rng.c",X+"/rng.c"],[("seedexpander_init, seedexpander",R+"/rng.c")])
p("P12","No secret decides a branch, an address or a variable-time operation",
 "During key generation, encapsulation and decapsulation, no conditional jump, loop bound, memory address, copy length, division or early exit depends on the secret key, the rejection secret, the message, the coins, the derived keys or the outcome of the ciphertext comparison. This holds for every input, including invalid ciphertexts, in every implementation.",
 ["inputs","configurations"],"all secrets and ciphertexts, all instructions reachable from the three API functions",
 "Functional tests do not observe timing or access patterns at all.",
 KEM+[R+"/verify.c",R+"/cbd.c",UR+"/aes256ctr.c"],[("verify and cmov are branch-free",R+"/verify.c"),("bit-sliced AES without tables",UR+"/aes256ctr.c")])
p("P13","All memory accesses stay inside their objects",
 "With API buffers of exactly the advertised sizes, key generation, encapsulation, decapsulation and the hash functions never read or write outside the buffers they were given or outside their own internal objects, for any input. This holds in every implementation and parameter set.",
 ["inputs","configurations"],"every input; every load, store and copy reachable from the API",
 "Tests run without bounds checking and use buffers surrounded by other live memory, so a small over-read or over-write is invisible; Cortex-M code is never run.",
 KEM+CPA+[X+"/fips202x4.c"],[("api.h buffer sizes",R+"/api.h"),("squeeze tail buffers",X+"/fips202x4.c"),("message extraction buffer",M0+"/src/encode.c")])
p("P14","API buffers may be at any address alignment",
 "The API takes byte pointers, so key generation, encapsulation and decapsulation work for public key, secret key, ciphertext and shared secret buffers at any address: no access to caller memory requires more alignment than the pointer type promises, on the host implementations.",
 ["inputs","configurations"],"every caller buffer address, every host implementation",
 "Test buffers are large stack arrays, which the compiler aligns to 16 bytes.",
 [A+"/pack_unpack.c",A+"/SABER_indcpa.c",X+"/pack_unpack.c",X+"/SABER_indcpa.c",UA+"/crypto_stream_aes256ctr.c"],[("SSE/AVX loads and stores on caller buffers",X+"/pack_unpack.c")])
p("P15","Outputs are complete and depend only on inputs and fresh randomness",
 "Every byte of every output buffer is written by each API call, and its value is a function only of the call's inputs and the random bytes drawn during this call: never of uninitialised memory, of stack contents, of earlier calls or of mutable global state. Calling an operation again with the same inputs and randomness therefore gives the same result whatever happened before.",
 ["inputs","histories","configurations"],"all inputs, all prior memory contents and call histories",
 "Tests run each operation in one fixed order in a fresh process, where stale memory tends to hold benign values.",
 KEM+CPA,[("local buffers and global vector constants",A+"/SABER_indcpa.c"),("static expansion buffers",M0+"/src/SABER_indcpa.c")])
p("P16","No data-dependent value is kept in shared storage between or during calls",
 "The KEM operations of the host implementations keep no input-dependent data in global or static storage: whatever they store there is the same for all inputs, so concurrent or interleaved calls cannot influence each other's results and no secret remains in static memory. The random generator's own state is the only exception.",
 ["inputs","histories","schedules","configurations"],"all interleavings of calls in different threads or histories",
 "Tests are single-threaded and call the operations in one order.",
 [A+"/SABER_indcpa.c",A+"/polymul/toom-cook_4way.c",X+"/SABER_indcpa.c",UA+"/SABER_indcpa.c",R+"/SABER_indcpa.c"],[("file-scope vector constants and cycle counters",A+"/SABER_indcpa.c")])
p("P17","Randomness is drawn fresh, in full, and never released raw",
 "Key generation draws exactly three independent 32-byte random values (matrix seed, noise seed, rejection secret) and encapsulation exactly one, per key or lane; every drawn byte is used, each draw serves one purpose only, and decapsulation draws none. The random bytes for the matrix seed and the message are hashed before use, so raw generator output never appears in a public key or ciphertext.",
 ["inputs","configurations"],"all generator outputs, every implementation",
 "A known-answer test fixes the generator; using too few bytes, or a public raw seed in an implementation without vectors, goes unnoticed.",
 KEM+CPA+[M0+"/src/prng.c"],[("randombytes calls",R+"/SABER_indcpa.c"),("hash of seed and message",R+"/kem.c"),("hardware generator word to bytes",M0+"/src/prng.c")])
p("P18","Secrets reach public outputs only through the scheme's one-way steps",
 "The public key depends on secret randomness only through the rounded matrix product and the hashed matrix seed, and the ciphertext only through the rounded products and the masked message; the rejection secret z influences nothing but the shared secret of decapsulation, and the decapsulation result depends on the long-term secret only through the final hash. No output byte carries a bit of a secret, seed, coin or random draw directly.",
 ["inputs","configurations"],"all inputs, every output bit of every implementation",
 "Tests compare values, not dependencies; a leaked bit that happens to equal the expected one, or a dependency in an untested implementation, is not seen.",
 KEM+CPA,[("crypto_kem_keypair/enc/dec data flow",R+"/kem.c")])
p("P19","The four lanes of the batched KEM are independent and equal to single KEM",
 "In the four-way implementation, the outputs of lane i (its quarter of each buffer) depend only on the inputs and random draws of lane i and equal what the single-instance scheme computes on them; in particular a bad ciphertext in one lane changes only that lane's shared secret.",
 ["inputs","configurations"],"all combinations of four inputs",
 "The only test for this implementation checks that its own encapsulation and decapsulation agree with four honest inputs.",
 [X+"/kem4x.c",X+"/SABER_indcpa.c",X+"/fips202x4.c",X+"/pack_unpack.c"],[("per-lane fail flags and cmov",X+"/kem4x.c"),("interleaved four-way data paths",X+"/SABER_indcpa.c")])
p("P20","Inputs are never modified and only the output buffers are written",
 "Encapsulation leaves the public key unchanged, decapsulation leaves ciphertext and secret key unchanged, and no operation writes to caller memory other than its own output buffers, even temporarily. Every operation returns 0.",
 ["inputs","schedules","configurations"],"all inputs, every store reachable from the API",
 "Tests do not compare inputs before and after, nor run operations on shared or read-only keys.",
 KEM+CPA,[("const API parameters and casts away from const",M4+"/m4-striding/SABER_indcpa.c")])
p("P21","Advertised sizes match the data layout in every configuration",
 "For every implementation and parameter set the advertised sizes of public key, secret key, ciphertext and shared secret equal the specified layout (public key: packed vector plus 32-byte seed; secret key: packed secret, public key, hash and rejection secret; ciphertext: packed vector plus packed polynomial; 32-byte shared secret), and equal what the operations really read and write.",
 ["configurations"],"every implementation x parameter set",
 "Tests allocate by the advertised sizes, so a size that is too large (bytes left unwritten) or inconsistent between files goes unnoticed; Cortex-M sizes are never used.",
 [R+"/api.h",A+"/api.h",UR+"/api.h",UA+"/api.h",X+"/api.h",M0+"/include/api.h",M4+"/m4-striding/api.h",R+"/SABER_params.h"],[("CRYPTO_*BYTES and SABER_*BYTES",R+"/api.h")])
p("P22","Decryption failure probability stays negligible",
 "For honestly generated keys and ciphertexts the probability, over the randomness of both parties, that decapsulation does not return the encapsulated key is below 2^-120 for every parameter set.",
 ["inputs"],"the distribution of all keys and coins","A probability of 2^-120 cannot be sampled.",
 [R+"/SABER_params.h"],[("mu, q, p, T and rounding constants",R+"/SABER_params.h")])
p("P23","Compiled code keeps the constant-time behaviour on every target",
 "The machine code produced by the supported compilers and the processor's own timing behaviour do not reintroduce secret-dependent timing that the source does not have.",
 ["inputs","programs"],"all compilers, flags and processors","Not observable by functional tests.",
 [R+"/verify.c"],[("verify, cmov",R+"/verify.c")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
