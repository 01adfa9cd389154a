NOTES = 'All checks are static: clang IR of the current /repo sources (three CPU configurations) is interpreted over an abstract domain; nothing of the library is executed. Exit 2 means the analysis lost its anchor.'
FIELD_TECH = 'abstract interpretation of compiler IR and inline assembly over an interval + exact integer polynomial domain (no execution, no solver)'
TRUST = ' Trusts clang\'s front end, the IR/intrinsic/x86 instruction models in sa/, and the abstract domain. Does not cover what the optimiser or gcc do afterwards.'

CLAIMED = [
 dict(id='P08', title='Arithmetic modulo 2^255-19 is exact in every implementation',
  statement='Every exported operation on elements of the field of 2^255-19 elements (one, two and four lanes; full and redundant radix; with and without mulx/adx) returns the value arithmetic modulo 2^255-19 prescribes for every operand within the documented limb bounds, including when the result overwrites an operand. Encodings produced are the unique canonical ones, and comparison and sign answer according to those canonical encodings.',
  over=['inputs', 'configurations'], forall='all limb values within the operand bounds (all 2^256 bit patterns for full radix), every lane, destination aliasing, and all three CPU configurations',
  why='the tests compare random operands against GMP; wrong carries and folds appear with probability about 2^-60 per random operand and only one CPU configuration is built',
  files=['src/fp255.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp25519_1w_redradix.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_4w_redradix.c', 'include/faz_fp_avx2.h'],
  mech=[('dispatch table of field operations', 'src/fp255.c'), ('carry chains and folding by 19/38', 'src/eltfp25519_*')],
  observe=['the Fp25519 table in faz_fp_avx2.h'],
  technique=FIELD_TECH, level='proof',
  note='Each slot of the table is interpreted on symbolic limbs; the output polynomial must equal the specification modulo the prime with all carry atoms cancelled, and result limbs must satisfy the stated bounds.' + TRUST),
 dict(id='P09', title='Arithmetic modulo 2^448-2^224-1 is exact in every implementation',
  statement='Every exported operation on elements of the field of 2^448-2^224-1 elements (one, two and four lanes; full and redundant radix; with and without mulx/adx) returns the value arithmetic modulo that prime prescribes for every operand within the documented limb bounds, including when the result overwrites an operand. Encodings produced are the unique canonical ones, and comparison and sign answer according to those canonical encodings.',
  over=['inputs', 'configurations'], forall='all limb values within the operand bounds (all 2^448 bit patterns for full radix), every lane, destination aliasing, and all three CPU configurations',
  why='the tests compare random operands against GMP; wrong carries and folds appear with negligible probability per random operand and only one CPU configuration is built',
  files=['src/fp448.c', 'src/eltfp448_1w_fullradix.c', 'src/eltfp448_1w_redradix.c', 'src/eltfp448_2w_redradix.c', 'src/eltfp448_4w_redradix.c', 'include/faz_fp_avx2.h'],
  mech=[('dispatch table of field operations', 'src/fp448.c'), ('carry chains and Karatsuba folding at 2^224', 'src/eltfp448_*')],
  observe=['the Fp448 table in faz_fp_avx2.h'],
  technique=FIELD_TECH, level='proof',
  note='As P08, for the 448-bit field.' + TRUST),
]

LIGHT_TECH = 'abstract interpretation of compiler IR and inline assembly of every public entry point (interval, relational, taint and definedness domains; no execution, no solver)'
LTRUST = ' Entry points are taken from the exported descriptors; three CPU configurations are analysed. Trusts clang\'s front end and the IR/x86/libc models in sa/; optimiser and linker are outside.'
ALLSRC = ['src/dh255.c', 'src/dh448.c', 'src/sign255.c', 'src/sign448.c', 'src/hash255.c', 'src/ladder255.c', 'src/ladder448.c', 'src/edwards255.c', 'src/edwards448.c', 'src/bytestring.c', 'third_party/sha512.c', 'third_party/sha3.c', 'third_party/sha512_2way.c', 'third_party/prng.c']

CLAIMED += [
 dict(id='P01', title='Key operations never branch or address memory on private-key bits',
  statement='In key generation, key agreement and signing (X25519, X448, Ed25519, Ed448, all variants), no conditional branch or switch, no select condition, no memory address, no division operand, no length of a block operation and no memcmp depends on the private key or anything derived from it (hashed secret, nonce, recoded digits, intermediate points) other than the published outputs. Table look-ups with secret digits read every candidate.',
  over=['inputs', 'configurations'], forall='all keys, messages and lengths, all three CPU configurations',
  why='a timing dependence changes no output, so no functional test can see it',
  files=ALLSRC, mech=[('masked table queries', 'src/edwards255.c, src/edwards448.c'), ('conditional swaps', 'src/ladder255.c, src/ladder448.c')],
  observe=['X25519/X448 keygen and shared; Ed25519/Ed448 keygen and sign'],
  technique=LIGHT_TECH + ': taint', level='proof',
  note='Source-level (IR before optimisation) constant time; shift amounts are not counted as leaks.' + LTRUST),
 dict(id='P02', title='Diffie-Hellman erases its copies of the private key',
  statement='When the function that made a local working copy of the private key in X25519 or X448 key generation or key agreement returns, no byte of that copy still depends on the key, and the stores that overwrote it are volatile (or go through a library call meant for erasure), so that the compiler cannot drop them.',
  over=['inputs', 'configurations'], forall='all keys and peer values; every local array that received private-key bytes',
  why='what is left on the dead stack is invisible to functional tests',
  files=['src/dh255.c', 'src/dh448.c', 'src/ladder255.c', 'src/ladder448.c', 'src/bytestring.c'], mech=[('erasure of the clamped copy', 'src/dh255.c, src/dh448.c')],
  observe=['X25519/X448 keygen and shared'],
  technique=LIGHT_TECH + ': taint of dead frames', level='proof',
  note='Registers, spilled values and data derived from the key (recoded digits, ladder state) are outside the property.' + LTRUST),
 dict(id='P03', title='Every access of every public operation stays inside a live object',
  statement='For every public operation, every argument content and every message or context length, each read and write goes to a live object (argument of the documented size, local, static or heap block) within its bounds, no null or wild pointer is dereferenced or called, and memcpy regions do not overlap.',
  over=['inputs', 'configurations'], forall='all argument bytes, all message lengths up to 2^60 and context lengths, all three CPU configurations',
  why='tests sample a few lengths; one-byte overruns on the stack usually go unnoticed',
  files=ALLSRC + ['src/eltfp25519_*', 'src/eltfp448_*', 'include/table_*'], mech=[('block buffering', 'third_party/sha512.c, third_party/sha3.c'), ('digit arrays', 'src/edwards255.c, src/edwards448.c')],
  observe=['all public descriptors'],
  technique=LIGHT_TECH + ': interval and linear relations', level='proof',
  note='The digits written by the wNAF recoding are bounded by an assumption (at most bits+1 digits, each below half the window), recorded in the evidence.' + LTRUST),
 dict(id='P04', title='Results never depend on uninitialised memory',
  statement='No branch or address in any public operation depends on uninitialised storage, and every byte a public operation delivers in an output buffer is initialised.',
  over=['inputs', 'configurations'], forall='all argument bytes and lengths, all three CPU configurations',
  why='uninitialised stack contents are often the same in every test run',
  files=ALLSRC, mech=[('local working arrays', 'all sources')], observe=['all public descriptors'],
  technique=LIGHT_TECH + ': definedness', level='proof',
  note='Partially filled hash block buffers are taken as filled front to back.' + LTRUST),
 dict(id='P05', title='Inputs are left alone and outputs are written completely',
  statement='Byte-string arguments that are inputs (keys, messages, contexts, signatures, peer values) and static tables are never written. On success every byte of every output buffer is written. When signing refuses its context, the signature buffer is not touched.',
  over=['inputs', 'configurations'], forall='all argument bytes and lengths, all three CPU configurations',
  why='tests rarely compare inputs before and after, and buffers are often pre-initialised',
  files=ALLSRC, mech=[('const parameters', 'include/*.h')], observe=['all public descriptors'],
  technique=LIGHT_TECH + ': effects', level='proof',
  note='In-place canonicalisation of point operands in areEqual is not covered (those arguments are not byte strings).' + LTRUST),
 dict(id='P06', title='Operations keep no state between calls',
  statement='No public operation writes an object of static storage duration (no caches, counters, scratch globals), so that calls are independent of earlier calls and may run concurrently on separate buffers.',
  over=['inputs', 'schedules', 'configurations'], forall='all operations, arguments and interleavings',
  why='a race or history dependence needs a particular schedule',
  files=ALLSRC, mech=[('static const tables', 'include/table_*')], observe=['all public descriptors'],
  technique=LIGHT_TECH + ': effects on static storage', level='proof',
  note='State inside the C library (stdio, malloc, errno) is outside the property.' + LTRUST),
 dict(id='P16', title='Random keys come from the device or not at all',
  statement='Whenever a random key or point generator returns, every byte of the key was delivered by a successful read of the kernel random device: failed opens, failed, short or interrupted reads never leave key bytes that were not generated, and no other source is used.',
  over=['fault_sequences', 'inputs'], forall='all outcomes of open and every sequence of read results (short, interrupted, end of file, error)',
  why='tests cannot make the device fail or deliver short reads',
  files=['third_party/prng.c', 'src/dh255.c', 'src/dh448.c', 'src/ed255.c', 'src/ed448.c'], mech=[('reading loop', 'third_party/prng.c')],
  observe=['randKey of every descriptor'],
  technique=LIGHT_TECH + ': ghost count of delivered bytes related to the read position', level='proof',
  note='read and open are modelled after POSIX; quality of the device is not examined.' + LTRUST),
 dict(id='P23', title='Heap blocks are checked, released once, and never leaked',
  statement='Every block a public operation allocates is checked before it is used, and is either released exactly once before the operation returns or handed to the caller; the alloc operations return a fresh block (or null), the free operations release exactly their argument, accept null, and nothing else is released.',
  over=['fault_sequences', 'inputs', 'configurations'], forall='all arguments and every allocation outcome',
  why='allocation does not fail in tests and leaks are not observed',
  files=['src/hash255.c', 'src/sign255.c', 'src/sign448.c', 'src/ed255.c', 'src/ed448.c', 'src/dh255.c', 'src/dh448.c', 'src/fp255.c', 'src/fp448.c'], mech=[('allocation', 'src/*.c')],
  observe=['all public descriptors'],
  technique=LIGHT_TECH + ': typestate of heap blocks', level='proof', note='' + LTRUST.strip()),
 dict(id='P24', title='Vector accesses go to addresses with declared alignment',
  statement='Every vector load or store compiled as aligned goes to an address whose alignment follows from the declared alignment of the object it lies in and the offset, so that no stack layout or build can make it fault.',
  over=['inputs', 'configurations'], forall='all aligned vector accesses of field, point, key-agreement, signature and hashing operations in three CPU configurations',
  why='whether a misaligned object happens to be aligned depends on the stack layout of one build',
  files=['src/eltfp25519_*', 'src/eltfp448_*', 'src/edwards255.c', 'src/edwards448.c', 'src/ladder255.c', 'src/ladder448.c', 'include/simd_avx2.h'], mech=[('ALIGN', 'include/*.h')],
  observe=['all public descriptors'],
  technique=LIGHT_TECH + ': congruence of addresses against declared alignments', level='proof', note='' + LTRUST.strip()),
]
FSEM_TECH = 'abstract interpretation of compiler IR over limb polynomials, lifted to polynomials over Z/p (each field routine summarised after analysing its own body for the operand bounds of the call), then symbolic matching of the extracted value graph'
FTRUST = ' Trusts clang\'s front end and the IR/x86/intrinsic models in sa/; optimiser and gcc are outside. Nothing of the library is executed.'
CLAIMED += [
 dict(id='P25', title='X25519 key agreement computes the RFC 7748 function',
  statement='For every 32-byte private key and every 32-byte peer value, X25519.shared and X25519_x64.shared deliver the RFC 7748 X25519 output: the key is clamped, the top bit of the peer value is ignored, non-reduced peer values are accepted, and the result is the canonical little-endian u-coordinate of the clamped multiple (zero for low-order points). No intermediate limb overflows on the way.',
  over=['inputs', 'configurations'], forall='all keys and peer values, both implementations, all three CPU configurations',
  why='2^512 inputs; a limb that overflows or a step that deviates for rare intermediate values is not met by the vectors and random exchanges in the tests',
  files=['src/ladder255.c', 'src/dh255.c', 'src/eltfp25519_*', 'src/fp255.c'], mech=[('vectorised ladder step with lazy carries', 'src/ladder255.c step_ladder_x25519'), ('x64 ladder', 'src/ladder255.c x25519_shared_x64')],
  observe=['X25519.shared', 'X25519_x64.shared'], technique=FSEM_TECH, level='proof',
  note='Every ladder step is matched against the x-only doubling/differential addition for each value of the scalar bits; differences are confirmed by evaluating the extracted graph against RFC 7748 before they are reported.' + FTRUST),
 dict(id='P26', title='X448 key agreement computes the RFC 7748 function',
  statement='For every 56-byte private key and every 56-byte peer value, X448.shared delivers the RFC 7748 X448 output: the key is clamped, non-reduced peer values are accepted, and the result is the canonical little-endian u-coordinate of the clamped multiple (zero for low-order points). No intermediate limb overflows on the way.',
  over=['inputs', 'configurations'], forall='all keys and peer values, all three CPU configurations',
  why='2^896 inputs; a limb that overflows or a step that deviates for rare intermediate values is not met by the vectors and random exchanges in the tests',
  files=['src/ladder448.c', 'src/dh448.c', 'src/eltfp448_*', 'src/fp448.c'], mech=[('vectorised ladder step with lazy carries', 'src/ladder448.c step_ladder_x448')],
  observe=['X448.shared'], technique=FSEM_TECH, level='proof',
  note='As P25.' + FTRUST),
]
CLAIMED += [
 dict(id='P10', title='Inversion and root slots compute the exponentiation they promise',
  statement='Every implementation of inversion of both fields (one, two and four lanes) and the inverse square-root power of the 448-bit field deliver, for every operand including zero, the power x^(p-2) (respectively x^((p-3)/4)) of the operand modulo the prime into a separate destination, leave the operand alone, and no intermediate product overflows its limb representation.',
  over=['inputs', 'configurations'], forall='all operands within the documented limb bounds, all lanes, all three CPU configurations',
  why='one wrong squaring count is seen by tests, but a deviation confined to one lane, one configuration or to rare limb patterns is not',
  files=['src/fp255.c', 'src/fp448.c', 'src/eltfp25519_*', 'src/eltfp448_*'], mech=[('addition chains for p-2', 'src/eltfp25519_*_redradix.c, src/eltfp448_*_redradix.c')],
  observe=['inv slots of Fp25519 and Fp448, srt slots of Fp448'], technique=FSEM_TECH, level='proof',
  note='The exponent is read off the extracted product graph as an integer. Fp25519 .srt is not covered: the source gives it no contract.' + FTRUST),
]
PROTO_TECH = 'path-enumerating abstract interpretation of compiler IR: byte strings as symbolic byte sequences and segments of symbolic length, scalars as polynomials over the group order, hash transcripts as recorded values, compared with the RFC 8032 transcript'
PTRUST = ' Hash functions, scalar reduction and point operations enter as operations on symbolic values (their own correctness is the subject of other properties or assumed).' + FTRUST
CLAIMED += [
 dict(id='P14', title='EdDSA verification accepts exactly under the RFC 8032 conditions',
  statement='For every public key, signature, message, context and length, and every variant (Ed25519 pure/ctx/ph, Ed448 pure/ph), verification returns "context error" exactly when the context is longer than 255 bytes, "public-key error" exactly when the key does not decode to a point, "invalid" when S is not below the group order, and otherwise "ok" exactly when all bytes of R equal the encoding of S*B - h*A with h the digest of dom, R, A and the (pre-hashed) message reduced modulo the group order.',
  over=['inputs', 'configurations'], forall='all keys, signatures, messages, contexts, lengths; all variants; all three CPU configurations',
  why='acceptance of a malformed signature needs inputs no test contains: S plus a multiple of the order, a difference in one particular byte, a context of one particular length',
  files=['src/sign255.c', 'src/sign448.c', 'src/ed255.c', 'src/ed448.c', 'src/bytestring.c'], mech=[('is_canonical_s', 'src/sign255.c, src/sign448.c'), ('domain prefix and hash transcript', 'src/sign255.c, src/sign448.c')],
  observe=['verify of every Ed25519 and Ed448 descriptor'], technique=PROTO_TECH, level='proof',
  note='All decision paths are enumerated; on each the result is compared with the specified one under the path facts.' + PTRUST),
 dict(id='P15', title='EdDSA keys and signatures are the RFC 8032 ones',
  statement='For every private key, message, context and length, and every variant, key generation delivers the encoding of the clamped-scalar multiple of the base point, and signing returns "context error" without a signature exactly when the context is longer than 255 bytes and otherwise delivers enc(r*B) followed by the canonical (r + h*a) mod the group order, with r and h the digests of the RFC 8032 transcripts (dom with phflag and the full context, prefix half of the key digest, message or its pre-hash).',
  over=['inputs', 'configurations'], forall='all keys, messages, contexts, lengths; all variants; all three CPU configurations',
  why='tests use a handful of vectors; nonce derivation errors, clamping errors and transcript errors for particular lengths still give signatures that verify',
  files=['src/sign255.c', 'src/sign448.c', 'src/ed255.c', 'src/ed448.c'], mech=[('domain prefix and hash transcript', 'src/sign255.c, src/sign448.c'), ('clamping', 'src/sign255.c, src/sign448.c')],
  observe=['keygen and sign of every Ed25519 and Ed448 descriptor'], technique=PROTO_TECH, level='proof', note='' + PTRUST.strip()),
]
CLAIMED += [
 dict(id='P21', title='Scalar arithmetic modulo the group orders is exact and canonical',
  statement='For every operand, the scalar routines of both signature schemes deliver the specified value modulo the group order, reduced to the unique representative below the order: reduction of a 64-byte digest (Ed25519) and of a 114-byte digest (Ed448), r + h*a for signing (both), and the division by 4 used for fixed-base multiplication on the 448-bit curve; bytes past the scalar are zero.',
  over=['inputs', 'configurations'], forall='all 2^512 (2^912) digests and all scalars, all three CPU configurations',
  why='the carries and final corrections that decide the outcome are exercised by random digests with probability 2^-60 or less; a scalar off by the order still yields signatures that verify',
  files=['src/sign255.c', 'src/sign448.c', 'src/edwards448.c', 'src/bytestring.c'], mech=[('folding and final correction', 'src/sign255.c modular_reduction_ed25519, src/edwards448.c modular_reduction_ed448'), ('multi-word multiply-accumulate', 'src/bytestring.c word64_multiplier')],
  observe=['S of Ed25519/Ed448 signatures; nonces and challenges'], technique='abstract interpretation of compiler IR and inline assembly over exact integer polynomials with carries as floor atoms; congruence and range decided by polynomial arithmetic, case distinction on the sign and the top bits', level='proof',
  note='When congruence or range is neither proved nor refuted (after an unusual rewriting), the obligation is printed as UNDECIDED and the evidence says so.' + FTRUST),
]
CLAIMED += [
 dict(id='P27', title='Public-key decoding accepts exactly the RFC 8032 encodings',
  statement='For every 32-byte (Ed25519) and 57-byte (Ed448) string, key decoding fails exactly when the string is not the unique encoding of a curve point: y not below the prime, non-zero bits above y, no x with the curve equation, or x = 0 with the sign bit set. Otherwise it delivers the negated point -A (for Ed448 its image on the isogenous curve) in all coordinates, for the root x whose parity is the sign bit, with limbs inside the bounds the point arithmetic needs.',
  over=['inputs', 'configurations'], forall='all 2^256 (2^456) strings, both delivery formats, all three CPU configurations',
  why='the exceptional encodings (y = 0, y = 1 with sign, p <= y, keys whose intermediate limbs are extreme) have negligible probability under random keys',
  files=['src/edwards255.c', 'src/edwards448.c', 'src/eltfp25519_1w_fullradix.c', 'src/eltfp448_1w_redradix.c'], mech=[('point decoding', 'src/edwards255.c point_decoding_ed25519, src/edwards448.c point_decoding_ed448'), ('square root and its check', 'invsqrt / srt slots')],
  observe=['verification results for unusual public keys'], technique='path enumeration over abstract interpretation of compiler IR: field elements as polynomials over the operand, exponents exact; each path judged by algebra in Z/p', level='proof',
  note='A path whose decisions are not of the specified forms is compared with the specification on operand values; without a contradiction it is printed as UNDECIDED and the evidence says so.' + FTRUST),
 dict(id='P17', title='SHA-512 and SHAKE256 digests follow FIPS 180-4 and FIPS 202',
  statement='For every message, the streaming SHA-512/384 (any cut of the message into updates, context reusable after close), the two-way SHA-512, the one-shot SHAKE128/256 and the SHAKE256 sponge (any cut into byte-aligned updates) give the digest of FIPS 180-4 / FIPS 202: compression functions, padding, the whole of the length field, and the cut points of output longer than a block.',
  over=['inputs', 'histories', 'configurations'], forall='all message contents and lengths; all cuts of a message into updates',
  why='block-boundary lengths, particular cuts into updates and messages of 2^29 and more bytes are not sampled by fixed vectors; every signature depends on them',
  files=['third_party/sha512.c', 'third_party/sha512_2way.c', 'third_party/sha3.c'], mech=[('compression', 'sha3_round, sha512_permutation, KeccakF2'), ('padding', 'sha384_addbits_and_close, sha512_2w_avx, Final2')],
  observe=['digests and therefore keys, signatures and hash-to-curve'], technique='abstract interpretation of compiler IR over bit-parallel Boolean polynomials of message words and modular sums, compared with the standard; lengths: control-flow dependence of every length bit', level='proof',
  note='Contents are unknown throughout. Lengths and cuts are enumerated over every residue of the block length with one to three blocks; larger lengths are covered by the state-machine argument in DESIGN.md (unknown number k of earlier blocks, length field symbolic) and by the dependence of the block count on each length bit. A rewriting that the symbolic forms do not equate and no operand contradicts is printed as UNDECIDED.'),
dict(id='P11', title='Fixed-base multiplication and point encoding give exactly enc([r]B)',
  statement='For every scalar r that key generation and signing produce (Ed25519: every r below 2^253; Ed448: every r below 2^448), the fixed-base multiplication followed by the encoding of the result yields exactly the RFC 8032 encoding of [r]B: coordinates reduced to the canonical representative, sign bit equal to the parity of x.',
  over=['inputs', 'configurations'], forall='all scalars; every digit value and sign at every position; every lookup table entry',
  why='a wrong table entry, a lost digit carry, a missed sign or a limb overflow in one point formula shows only for few scalars; fixed vectors visit a fraction of the table entries',
  files=['src/edwards255.c', 'src/edwards448.c', 'src/sign255.c', 'src/sign448.c', 'include/table_sign_w4_24k_ed25519.h', 'include/table_sign_w4_3675k_ed448.h'], mech=[('fixed-base comb', 'point_multiplication_ed25519, fixed_point_multiplication_ed448'), ('encoding', 'point_encoding_ed25519, point_encoding_ed448')],
  observe=['Ed25519/Ed448 public keys and the R half of signatures'], technique='abstract interpretation of compiler IR; digits as tabulated cases, field values as polynomials, point formulas read back as group operations; table entries checked against multiples of the generator', level='proof',
  note='The digit recoding is decided for all scalars (digits as intervals with the linear identity sum d_i 16^i = r), each lookup for every digit value, each point formula as a polynomial identity in the coordinates, limb bounds included. Trusted mathematics: completeness of the a = -1 addition law where used, and the values of the standard generators. Scalar arithmetic is P21, inversion P10.'),
dict(id='P12', title='Verification computes exactly enc([s]B + [h]A), for every s, h and A',
  statement='For every s and h that verification passes on (Ed25519: below 2^253; Ed448: below 2^446) and every decoded public key point, the double-base multiplication yields exactly the canonical RFC 8032 encoding of [s]B + [h]A (A the point handed over; Ed448 computes on the 4-isogenous curve with both scalars divided by 4, which is the same point whenever A lies in the prime-order subgroup). No combination of digits, key and accumulator makes a limb leave its word, so no genuine signature is refused on arithmetic grounds.',
  over=['inputs', 'configurations'], forall='all pairs of scalars; every pair of digits in every iteration; all coordinates of key and accumulator',
  why='carries of the recoding, sign handling of table lookups and limb overflows in the mixed addition show only for rare digits or for keys with unusually large coordinates; test vectors visit some hundred combinations',
  files=['src/edwards255.c', 'src/edwards448.c', 'include/table_verf_w7_ed25519.h', 'include/table_verf_w7_ed448.h'], mech=[('recoding', 'wnaf_256bits, wnaf_448bits'), ('double-base multiplication', 'double_point_mult_4w_ed25519, double_point_mult_4w_ed448')],
  observe=['Ed25519/Ed448 verify: genuine signatures accepted, others rejected'], technique='abstract interpretation of compiler IR; induction over the loops at their heads (recoding: exact integer identity per case of the low bits; main loop: accumulator of unknown coordinates, one analysis per pair of digits), point formulas read back as group operations', level='proof',
  note='Induction over iterations with two hypotheses shown to be kept: the limbs of the accumulator stay below 1.03125 units and its four coordinates represent one point. Trusted mathematics: completeness of the addition laws, and that a signed recoding of width w of an n-bit number has at most n+1 digits. Point decoding is P27, scalar arithmetic P21.'),
dict(id='P18', title='X25519 and X448 public keys are those of RFC 7748',
  statement='For every private key, KeyGen of X25519, X25519_x64 and X448 writes exactly the 32/56 bytes that RFC 7748 prescribes: the u-coordinate of [clamp(k)]G, canonically reduced; so it equals what the shared-secret function gives for the base point, on every configuration.',
  over=['inputs', 'configurations'], forall='all private keys; every ladder step and table entry',
  why='key generation does not use the ladder of the shared secret but precomputed tables; an entry or a step is wrong only for keys with a particular bit pattern, and limb overflows need rare operand values',
  files=['src/ladder255.c', 'src/ladder448.c', 'src/dh255.c', 'src/dh448.c', 'src/edwards255.c'], mech=[('public keys', 'X25519.KeyGen, X25519_x64.KeyGen, X448.KeyGen')],
  observe=['public keys'], technique='abstract interpretation of compiler IR; loop body and tables as tabulated cases, field values as polynomials, formulas read back as group operations; tables checked against multiples of the base point', level='proof',
  note='Starts at the exported key generation functions. The clamped scalar is shown to be what is multiplied; the degenerate results (identity) follow RFC 7748 (u = 0).'),
dict(id='P28', title='Hashing to the curve gives 8*(map(u0)+map(u1)), in both variants',
  statement='For every message and length, h2c25519_x64 and h2c25519_avx2 deliver the same point of edwards25519: eight times the sum of map(u0) and map(u1), where u_i is the SHA-512 digest of the byte i followed by the message, reduced by the library\'s scalar reduction, and map is the Elligator 2 map of RFC 9380 for edwards25519 (exceptional inputs included). So the result always lies on the curve and in the prime-order subgroup; isOnCurve returns 1 exactly for points that satisfy the curve equation and areEqual exactly when both coordinates agree modulo p.',
  over=['inputs', 'configurations'], forall='all messages and lengths; all field elements, every outcome of every comparison in the map; all limb values',
  why='the tests hash one message repeatedly; a wrong sign or branch of the map, the exceptional inputs, and limb overflows of the two-lane arithmetic show only for particular digests',
  files=['src/hash255.c', 'src/edwards255.c', 'third_party/sha512_2way.c', 'src/eltfp25519_2w_redradix.c', 'src/eltfp25519_1w_fullradix.c'], mech=[('hash to field', 'hash_to_field, hash_to_field_2w'), ('map', 'map_to_curve, map_to_curve_2w'), ('cofactor and sum', 'h2c25519_x64, h2c25519_avx2'), ('predicates', 'isOnCurve, areEqual')],
  observe=['Point written by h2c25519_x64/h2c25519_avx2', 'isOnCurve, areEqual'], technique='abstract interpretation of compiler IR with field values as polynomials; one path per combination of comparison outcomes against the specification\'s straight-line program; rational-function identity on the curve; operand limb bounds re-analysed per call', level='proof',
  note='The identity of the final result is decided by evaluating the extracted rational functions at random curve points (polynomial identity test; error below 2^-240). Lanes are decided with equal, opposite and alternating outcomes. The reduction of the digest is taken modulo the group order, as the library does; the field slots are P08, hash functions P17, scalar reduction P21.'),
]
DECLINED = []
