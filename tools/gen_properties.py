#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand when a statement changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("A01", "Base-field operations are exact and canonical on every CPU variant",
 "For all canonical base-field elements (in the library's Montgomery representation), addition, doubling, subtraction, negation, multiplication and squaring return the one representative below the modulus that is congruent to the exact result, also when the output object is one of the inputs. This holds identically for the plain and the BMI2/ADX multiplication code, and multiplication stays exact when operands are unreduced sums as the interface documents (operands up to three times the modulus each, or up to four times and up to twice the modulus). No carry or borrow is ever lost, whatever the operand values.",
 ["inputs", "configurations"], "all pairs of 381-bit field elements, all aliasings of output and inputs, both CPU dispatch targets",
 "Tests feed a few hundred random and corner operands; a lost carry has probability 2^-64 per limb and never shows up.",
 ["src/arithmetic.s", "src/arithmetic.cpp", "src/fp.cpp"],
 [("assembly limb arithmetic and conditional final subtraction", "src/arithmetic.s"), ("field wrappers", "src/fp.cpp fp::add..fp::squareAssign")])

prop("A02", "No unreduced field value escapes or overflows",
 "Every base-field coordinate of every value returned by a field, curve or pairing operation on valid canonical inputs is itself canonical (below the modulus). Intermediate results that skip the modular reduction are only ever consumed by multiplications, and only while their magnitude is within the documented bound of the multiplier, so they never wrap around the limb width.",
 ["inputs"], "all canonical inputs of every public field, curve and pairing operation",
 "An unreduced value is numerically wrong only for a small slice of operands (sum above the modulus in a non-final position), so sampling sees correct results.",
 ["src/fp.cpp", "src/g.cpp", "src/pairing.cpp", "include/bls12-381/arithmetic.hpp"],
 [("non-reducing add/double/subtract and its documented usage rule", "include/bls12-381/arithmetic.hpp"), ("uses in fp2/fp6/fp12 multiplication and squaring", "src/fp.cpp")])

prop("A03", "Inversion, roots, powers and residue tests are exact in the base fields",
 "For every element of the base field and of its quadratic extension, inversion returns the multiplicative inverse (zero for zero), square root succeeds exactly on squares and then returns a root, the non-residue test agrees with it on every non-zero element, and exponentiation returns the exact power for every exponent of any length including zero. The parity and 'lexicographically largest' predicates agree with the canonical integer value, and conversions into and out of Montgomery form are mutually inverse.",
 ["inputs"], "all field elements and all exponents, including zero, one, minus one and the exact half-modulus boundary",
 "Tests use about a hundred random elements; zero, boundary and 'square with zero component' cases and long exponents are not reachable by sampling.",
 ["src/fp.cpp", "include/bls12-381/scalar.hpp"],
 [("Montgomery inverse", "src/fp.cpp fp::inverse"), ("square roots", "src/fp.cpp fp::sqrt, fp2::sqrt"), ("exponentiation loops", "include/bls12-381/scalar.hpp"), ("lexicographic predicate", "src/fp.cpp fp::isLexicographicallyLargest")])

prop("A04", "Multi-word integer helpers are exact for every word pattern",
 "Word-level add-with-carry, subtract-with-borrow, multiply and multiply-accumulate helpers return the exact result for every input word (with an incoming carry or borrow of 0 or 1 where they take one), including all-ones words with an incoming carry. The multi-word addition, multiplication (into a result wide enough for the product), comparison, equality, right shift and bit length return the exact integer result (or report that it does not fit), and reduction modulo the field or group order returns exactly the remainder, for every operand.",
 ["inputs"], "all word values, all array widths that are instantiated, all shift counts",
 "Failures need an all-ones limb meeting a carry, or a quotient-digit correction in long division: probabilities around 2^-64 that random tests never hit.",
 ["src/arithmetic.cpp", "src/scalar.cpp", "include/bls12-381/scalar.hpp"],
 [("Add64/Sub64/Mul64/madd", "src/arithmetic.cpp"), ("scalar::add/multiply/cmp/rsh/bitLength", "include/bls12-381/scalar.hpp"), ("long division", "src/scalar.cpp bn_divn_low")])

prop("B01", "Extension-tower arithmetic implements the field definitions for all elements",
 "In the tower Fp2 = Fp[u]/(u^2+1), Fp6 = Fp2[v]/(v^3-(u+1)), Fp12 = Fp6[w]/(w^2-v), every arithmetic operation (add, double, subtract, negate, conjugate, multiply, square, sparse and scalar multiplications, inversion, Frobenius powers, cyclotomic squaring on its subgroup) returns the element defined by the tower relations for all operands. In-place and value-returning forms of an operation agree, also when both operands are the same object.",
 ["inputs"], "all operands of all tower operations, all Frobenius powers",
 "Tests check a few algebraic identities on random elements; sibling forms, sparse operands, aliasing and most Frobenius powers are never exercised.",
 ["src/fp.cpp", "include/bls12-381/fp.hpp"],
 [("Karatsuba/CH-SQR formulas", "src/fp.cpp"), ("Frobenius coefficient tables", "src/fp.cpp")])

prop("B02", "Published constants equal their mathematical definitions",
 "Every published constant (moduli, Montgomery constants, curve coefficients, generators, cofactors, endomorphism and Frobenius coefficients, exponents used for roots and residues) equals the value determined by the BLS12-381 parameter and the tower definition, and is a canonical field element. Generators lie on their curves and have the prime group order.",
 ["inputs", "configurations"], "every entry of every constant table",
 "A wrong table entry is visible only through the one code path that uses that entry (for example one Frobenius power), which tests may never take.",
 ["src/fp.cpp", "src/g.cpp"],
 [("constant tables", "src/fp.cpp, src/g.cpp")])

prop("C01", "G1 and G2 group operations implement the curve group law everywhere",
 "For all points of either curve in any projective representation, including the identity, equal points, opposite points and mixed affine/projective inputs, addition, doubling, negation, subtraction and conversion to affine return a representation of the mathematically correct point. Equality holds exactly when two representations denote the same point, and in-place forms agree with value-returning forms.",
 ["inputs"], "all pairs of curve points and all their projective representations",
 "Tests use random points with random scalings; exceptional inputs in non-normalised representations are only partly covered.",
 ["src/g.cpp"], [("Jacobian formulas with special cases", "src/g.cpp g1::add, g1::dbl, g2::add, g2::dbl, equal, affine")])

prop("C02", "Scalar and multi-scalar multiplication compute the exact multiple",
 "Multiplying a point by an integer scalar yields exactly that multiple for every scalar bit pattern, and a multi-scalar multiplication over any number of points and scalars of full width equals the sum of the individual multiples, with no bit of any scalar and no point skipped or counted twice. Mismatched or empty inputs yield the documented result without reading out of bounds.",
 ["inputs"], "all scalars of all supported widths, all batch sizes, all bucket/window boundaries",
 "Tests use two small batch sizes; window widths change with batch size and high-order scalar bits at window boundaries are not sampled systematically.",
 ["include/bls12-381/scalar.hpp", "src/g.cpp"],
 [("double-and-add", "include/bls12-381/scalar.hpp g1::scale, g2::scale"), ("bucket method", "src/g.cpp g1::weightedSum, g2::weightedSum")])

prop("C03", "Curve and subgroup membership tests are exact",
 "The on-curve test accepts a point representation exactly when it satisfies the projective curve equation (or is the identity), and the subgroup test on an on-curve point accepts exactly the points of the prime-order subgroup, for both groups. Cofactor clearing maps every curve point into that subgroup by multiplying with the specified effective cofactor.",
 ["inputs"], "all coordinate triples for the curve test, all curve points for the subgroup test and cofactor clearing",
 "Points of small or cofactor order that are not in the subgroup have negligible probability in random tests; tests contain only a few hand-made rejects.",
 ["src/g.cpp"], [("curve equation", "src/g.cpp isOnCurve"), ("endomorphism based subgroup tests", "src/g.cpp inCorrectSubgroup"), ("cofactor clearing", "src/g.cpp clearCofactor")])

prop("D01", "Field and uncompressed point encodings are canonical and invertible",
 "Encoding a field element or point and decoding it in the same byte order and representation returns the same element, big- and little-endian encodings are byte reversals at the coordinate level, and every coordinate lands in its specified position. With validation enabled (the default) a decoder accepts exactly the canonical encodings: any coordinate not below the modulus is rejected, and so is any point off the curve when the separate point check is requested; the affine all-zero encoding denotes the identity in both directions.",
 ["inputs"], "all byte strings of the given length and all elements",
 "Tests round-trip random elements and try all-ones garbage; non-canonical coordinates at a single position or off-curve points per format are not enumerated.",
 ["src/fp.cpp", "src/g.cpp", "include/bls12-381/scalar.hpp"],
 [("field decoders", "src/fp.cpp fromBytesBE/LE"), ("point decoders", "src/g.cpp from*Bytes*"), ("encoders", "src/fp.cpp, src/g.cpp to*Bytes*")])

prop("D02", "Compressed point encoding is a bijection between encodings and curve points",
 "A compressed encoding is accepted only if the compression flag is set, the abscissa is below the modulus and it lifts to a curve point, and then decodes to the point with exactly that abscissa and the ordinate selected by the sign flag. Encoding any curve point and decoding it returns the same point, and the identity is encoded by its dedicated flag; two encodings differing in abscissa never decode to the same point.",
 ["inputs"], "all 48- and 96-byte strings, all curve points including zero ordinate component boundary cases",
 "Tests round-trip random valid points; non-canonical abscissas and flag combinations are not covered.",
 ["src/g.cpp", "src/fp.cpp"],
 [("compressed decoders and encoders", "src/g.cpp fromCompressedBytesBE, toCompressedBytesBE"), ("ordinate selection", "src/fp.cpp isLexicographicallyLargest")])

prop("E01", "The pairing computes the reduced optimal ate pairing product",
 "For any list of point pairs handed over one by one, the pairing engine accumulates, for every pair exactly once, the tangent and chord line values of the Miller loop for the BLS12-381 parameter, and raises the result to the exact final exponent (up to the fixed standard multiple), so that the result is bilinear and multiplicative over the list. Pairs containing an identity contribute the neutral factor, points are normalised before use, and an empty list yields one. The target-group test accepts exactly the elements whose order divides the group order.",
 ["inputs"], "all lists of pairs of subgroup points in any representation, including identities and empty lists",
 "Bilinearity tests use a few random scalars and list sizes; representation, order and neutral-element handling are not enumerated.",
 ["src/pairing.cpp", "src/fp.cpp"],
 [("line computation", "src/pairing.cpp doubling_step, addition_step"), ("Miller loop", "src/pairing.cpp pre_compute, miller_loop"), ("final exponentiation", "src/pairing.cpp final_exponentiation"), ("pair admission", "src/pairing.cpp add_pair")])

prop("F01", "SHA-256 matches the standard for every message and every chunking",
 "The hash returned for a message equals SHA-256 of its bytes for every message length and every way of splitting it into successive update calls, including lengths at block and padding boundaries and lengths whose bit count exceeds 32 bits.",
 ["inputs", "histories"], "all messages, all update splittings, all lengths below 2^61 bytes",
 "Known-answer tests use few short messages; padding boundaries, chunkings and large lengths are not enumerated.",
 ["src/sha256.cpp", "src/sha256.hpp"], [("block buffering and padding", "src/sha256.cpp update, pad"), ("compression", "src/sha256.cpp transform")])

prop("F02", "Hash-to-curve follows the standard suite for every message and tag",
 "Hashing a message with a domain separation tag expands it with the standard XMD construction over SHA-256, reduces two pairs of 64-byte blocks modulo the field prime, maps both to the curve with the simplified SWU and isogeny maps, adds them and clears the cofactor. The result is a point of the prime-order subgroup for every message and tag, depends on every byte and the exact length of both, and inputs the expander cannot handle are refused instead of hashing unspecified bytes.",
 ["inputs"], "all messages and tags of all lengths, all field elements for the maps including exceptional ones",
 "Vector tests use a handful of messages; exceptional SWU inputs, the sign rule, over-long tags and long messages are not reached.",
 ["src/signatures.cpp", "src/g.cpp"],
 [("expander", "src/signatures.cpp xmd_sh256"), ("hash to field and assembly", "src/signatures.cpp fromMessage"), ("SWU and isogeny", "src/g.cpp swuMapG1/G2, isogenyMap*, mapToCurve")])

prop("F03", "Key generation and hardened derivation follow HMAC, HKDF and EIP-2333",
 "HMAC-SHA-256, HKDF extract and expand produce the standard output for every key, salt, info, input and output length, and report an error for lengths the standard excludes. Secret keys derived from seeds of at least 32 bytes and hardened child keys equal the EIP-2333 construction (key derivation with the literal initial salt first and, while the result is zero, again with the hashed salt; big-endian index, all 255 Lamport chunks of both halves), are non-zero and below the group order; shorter seeds are refused with the zero key.",
 ["inputs"], "all seeds, salts, infos, indices and output lengths",
 "The test vectors cover four seeds and one index each; zero-retry, output lengths that are not a multiple of the digest, long keys and error lengths are never executed.",
 ["src/signatures.cpp"],
 [("HMAC/HKDF", "src/signatures.cpp hkdf256_*"), ("seed to key", "src/signatures.cpp secret_key"), ("Lamport derivation", "src/signatures.cpp ikm_to_lamport_sk, parent_sk_to_lamport_pk, derive_child_sk")])

prop("F04", "Unhardened derivation commutes between secret and public keys",
 "For every valid parent secret key and every index, the public key of the unhardened child secret key equals the unhardened child of the parent's public key, because both sides add the same scalar computed from the compressed public key and the big-endian index and reduced modulo the group order. The same tweak rule is used for keys in the second group.",
 ["inputs"], "all parent keys and all 32-bit indices",
 "Tests compare a few indices of one seed; carry cases of the modular addition and large indices are not sampled.",
 ["src/signatures.cpp"],
 [("unhardened derivation", "src/signatures.cpp derive_child_sk_unhardened, derive_child_g1_unhardened, derive_child_g2_unhardened")])

prop("G01", "Signatures are accepted only after all validity checks and the pairing equation",
 "Single, aggregate, fast-aggregate and proof-of-possession verification return true only if every public key and the signature were checked to be on the curve and in the prime-order subgroup, key and message counts match, and the pairing product over exactly the signature with the negated generator and each key with its own message's hash is one. No path returns true without all of these checks, and fast aggregation over no keys is rejected (fast aggregation applies the checks to the aggregated key, as the proof-of-possession scheme allows); requested duplicate-message detection rejects any repeated message.",
 ["inputs"], "all public keys, signatures, message lists (any count, any order) and flags",
 "Tests contain only a few forged inputs; an omitted check shows only on adversarial points, mixed-up indices only on particular list shapes.",
 ["src/signatures.cpp", "src/g.cpp", "src/pairing.cpp"],
 [("verification gates", "src/signatures.cpp verify, aggregate_verify, pop_verify, pop_fast_aggregate_verify")])

prop("G02", "Honest signatures always verify and signing uses the right tag and key",
 "Signing computes the secret-key multiple of the message hash under the signature tag, and proof of possession the multiple of the hash of the public key's canonical bytes under the proof tag; verification recomputes the same hash under the same tag and key bytes, so honest outputs always verify and the two schemes never share a tag. Public keys are the secret-key multiple of the generator.",
 ["inputs", "histories"], "all secret keys and messages",
 "Round-trip tests sign a few messages with a few keys.",
 ["src/signatures.cpp"], [("sign/prove", "src/signatures.cpp sign, pop_prove, public_key"), ("tags", "src/signatures.cpp CIPHERSUITE_ID, POP_CIPHERSUITE_ID")])

prop("G03", "Aggregation is the exact group sum over all selected inputs",
 "Aggregated public keys and signatures equal the group sum of exactly the given (or selected) elements in any order, with the identity for an empty list. Aggregated secret keys equal the sum modulo the group order for any list of keys below the group order, always reduced, and correspond to the aggregate of the public keys; bytes-to-key conversion accepts or reduces exactly according to the requested mode and key-to-bytes is its inverse.",
 ["inputs"], "all lists of any length of keys and signatures, all selection predicates, all 32-byte strings",
 "Tests aggregate two or three elements; carries at the word boundary and overflow of the 256-bit sum are not reached.",
 ["src/signatures.cpp", "include/bls12-381/signatures.hpp", "include/bls12-381/scalar.hpp"],
 [("aggregation loops", "src/signatures.cpp aggregate_*"), ("accessor based aggregation templates", "include/bls12-381/signatures.hpp"), ("key codec", "src/signatures.cpp sk_from_bytes, sk_to_bytes")])

prop("H01", "Library code never touches memory out of bounds or reads undefined data",
 "On every path of every library function, for all inputs of the documented sizes (including empty ones), each array, buffer and pointer access stays inside its object, no value is used before it was written, shift counts are within the operand width, and no freed or unallocated buffer is used.",
 ["inputs"], "all inputs of all public functions, including empty spans and strings and zero lengths",
 "Out-of-bounds reads of one element or use of stale stack data usually leave results unchanged, so functional tests pass.",
 ["src/*.cpp", "include/bls12-381/*.hpp"],
 [("span/array indexing", "src/*.cpp"), ("heap buffers of the key derivation", "src/signatures.cpp")])

prop("H02", "Heap buffers are released on every path and failures are not ignored",
 "Every buffer the library allocates explicitly is released exactly once on every exit path, including error returns. The status of every fallible internal operation (allocation, key-derivation, message expansion) is checked before its output is used, so no result is ever computed from an output the failing operation did not produce.",
 ["inputs", "fault_sequences"], "all inputs and all allocation or length failures",
 "Tests never exercise error returns or allocation failures and do not observe leaks.",
 ["src/signatures.cpp"],
 [("allocation and status handling", "src/signatures.cpp hkdf256_*, secret_key, ikm_to_lamport_sk, fromMessage")])

prop("H03", "Results depend only on the arguments: no mutable shared state",
 "Every public operation is a pure function of its arguments: it neither writes nor depends on mutable global, static or thread-local state and does not modify inputs passed as constant. Hence concurrent calls from several threads and repeated calls in any order give identical results.",
 ["schedules", "histories"], "all interleavings of calls on all threads and all call histories",
 "Unit tests are single-threaded and never compare repeated calls.",
 ["src/*.cpp", "include/bls12-381/*.hpp"],
 [("absence of writable globals on call paths", "src/*.cpp")])

prop("H04", "Optimised code is only dispatched on CPUs that support it",
 "The BMI2/ADX multiplication is selected only when the processor reports both instruction-set extensions and the environment does not set BLS_DISABLE_BMI2, the generic routine contains no such instruction, and both routines preserve the callee-saved registers and stack pointer and write nothing but the result.",
 ["configurations"], "all CPU feature combinations and values of the disabling environment variable",
 "Tests run on one machine that has the extensions.",
 ["src/arithmetic.cpp", "src/arithmetic.s"],
 [("run-time dispatch", "src/arithmetic.cpp resolver"), ("register discipline", "src/arithmetic.s")])

prop("H05", "Arithmetic primitives documented as constant-time are data-independent",
 "The word-level primitives documented as running in time independent of their inputs, and the assembly base-field primitives (addition, doubling, subtraction, multiplication, squaring in both instruction-set variants), contain no branch, memory address or variable-latency instruction that depends on operand values.",
 ["inputs"], "all operand values",
 "Timing is not observable in functional tests.",
 ["src/arithmetic.cpp", "src/arithmetic.s", "include/bls12-381/arithmetic.hpp"],
 [("branch-free code", "src/arithmetic.cpp Add64, Sub64, Mul64; src/arithmetic.s")])

prop("H06", "Hex conversion is total and exact",
 "Converting bytes to hexadecimal and back returns the same bytes, with or without the leading 0x, in either letter case, for every byte string including the empty one; odd-length input is refused with an empty result.",
 ["inputs"], "all byte strings and all strings of hexadecimal digits",
 "Tests use fixed well-formed literals only.",
 ["src/scalar.cpp", "include/bls12-381/scalar.hpp"], [("hex helpers", "src/scalar.cpp hexToBytes, bytesToHex")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
