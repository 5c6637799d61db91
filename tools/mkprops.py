#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=list(files),
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    P.append(d)

FT = "includes/field_template.hpp"; ET = "includes/ecc_template.hpp"
FB = ["src/fields/field_secp256r1.cpp", "src/fields/field_bn254.cpp"]
EB = ["src/ecc/ecc_secp256r1.cpp", "src/ecc/ecc_bn254.cpp"]
I = ["inputs"]

# ---------------------------------------------------------------- fields
p("F01", "Field elements are always canonical residues of their own field",
  "Every field element the API can produce - built from any integer (negative, zero, or far above the modulus) or returned by any arithmetic, negation, inversion, division or integer-scaling operation - has a raw value v with 0 <= v < p and reports the modulus of its own field.",
  I, "every integer a field element can be built from and every pair of operands of every operator, for all four fields",
  "test_fields uses two fixed operands of one field; canonicity must hold for every value, in particular around 0 and p and for negative intermediates.",
  [FT] + FB, [("reduction after every write of the value", FT), ("modulus literal of each field class", FB[0])],
  [("value", "raw residue", FT), ("p", "modulus", FT)], ["getRawValue()", "getField()"])
p("F02", "Field operators compute exact arithmetic modulo p",
  "For all operands, +, binary and unary -, * (by an element or by an integer), square, and (for a non-zero divisor) invert and / return the element that the mathematical operation modulo p defines, for every supported field.",
  I, "all pairs of operands, all integers, all four fields",
  "The tests check 13 concrete results over one field; an operator may be wrong on any of the remaining operands (borrow, zero, equal operands, huge integers).",
  [FT] + FB, [("operator bodies of the field template", FT)], observe=["operator results compared with =="])
p("F03", "Compound operators agree with plain ones and never disturb operands",
  "For field elements and curve points, a op= b leaves a equal to a op b and returns a itself, also when a and b are the same object; no operator changes an operand it does not assign to.",
  ["inputs", "histories"], "every operator, all operands, including aliased operands",
  "No existing test uses a compound operator on an aliased operand or looks at operands afterwards.",
  [FT, ET], [("compound operators", FT), ("compound operators", ET)])
# ---------------------------------------------------------------- values
p("V01", "Equality compares every component of both operands",
  "== on field elements, points, curves, common reference strings, trapdoors, public keys, key pairs and ciphertexts is true exactly when all components of the two operands are equal (two points at infinity are equal; an infinite and a finite point never are), and is symmetric.",
  I, "all pairs of values of each comparable type",
  "Tests only ask whether expected-equal values compare equal; an equality that ignores a component, or compares an operand with itself, passes.",
  [FT, ET, "src/dme/dme.cpp"], [("operator==", FT), ("operator==", ET), ("operator== of the scheme types", "src/dme/dme.cpp")])
p("V02", "Copying and assigning a value transfers all of it and only reads the source",
  "Copy construction, assignment and component-wise construction of field elements, points, reference strings, trapdoors, keys and ciphertexts yield a value with exactly the source's components, leave the source unchanged, and are safe on self-assignment.",
  I, "all values of each value type",
  "A lost or swapped component shows only for values in which that component matters (infinity, second branch, trapdoors), which tests do not copy and inspect.",
  [FT, ET, "src/dme/dme.cpp"], [("copy constructors and operator=", "src/dme/dme.cpp"), ("Point copy/assign", ET), ("field assign", FT)])
# ---------------------------------------------------------------- curves
p("C01", "Curve and field domain parameters are consistent and standard",
  "For each supported curve the field prime, group order, coefficients, cofactor and generator used by curve and field classes agree with each other and with the published parameters: both moduli are prime, the curve is non-singular, the generator lies on it and has the stated order, and both ways of creating a field element use the same modulus.",
  ["configurations"], "every supported curve and field, every constructor that embeds a parameter",
  "Tests build only secp256r1 and use a handful of points; a wrong cofactor, order, coefficient or bn254 constant is never exercised (bn254 curve is not even compiled by the build).",
  FB + EB, [("literals in constructors", EB[0]), ("literals in constructors", FB[0])])
p("E01", "Point addition and doubling implement the curve group law in every case",
  "For all points P and Q of the curve, P+Q and doubling return the group-law result: the chord or tangent point, the other operand when one is infinity, and infinity for opposite points (including a point with y=0 or infinity itself doubled), on the same curve object.",
  I, "all pairs of points: generic, equal, opposite, one or both infinite; both curves",
  "test_ecc adds two fixed points and three special combinations; the remaining case splits and coordinates are unreached.",
  [ET], [("operator+ and pointDouble", ET)])
p("E02", "Point subtraction and negation invert addition",
  "For all points P and Q, including infinity on either side, P-Q equals P plus the inverse of Q, P-P is infinity, P-inf is P and inf-P is the inverse of P as a usable point of the same curve.",
  I, "all pairs of points including infinity",
  "Tests subtract one fixed pair of finite points and P-P; infinity operands are never subtracted.",
  [ET], [("operator-", ET)])
p("E03", "Scalar multiplication is repeated addition for every scalar",
  "For every point P (including infinity) and every scalar k - zero, one, negative, equal to or above the group order, of any bit length - k*P is the k-fold sum of P; integer, field-element, binary and compound forms agree.",
  I, "all scalars of every bit length up to the group order, all integers, all points",
  "Tests multiply by three small integers and infinity by 1000; bit lengths, carries, zero and negative scalars are unexplored.",
  [ET], [("double-and-add loop", ET), ("integer overload reduces modulo the order", ET)])
p("E04", "x-coordinate lifting and compressed encoding round-trip",
  "Lifting an x-coordinate returns a curve point with that x, or infinity exactly when none exists; the positive and negative lifts are each other's inverse; and decoding the encoded x of any finite curve point gives back that point.",
  I, "all x-coordinates, all finite points, both roots",
  "Tests round-trip one random point and lift two known x values; the other root, non-residues and y=0 are not covered.",
  [ET], [("square root by exponentiation", ET), ("parity-style root bit", ET)])
p("E05", "Point validation accepts exactly the points of the curve",
  "isValid is true for infinity and for exactly those finite coordinates that satisfy the curve equation over the curve's prime with a curve attached, and false for everything else.",
  I, "all coordinate pairs, with and without an attached curve",
  "Tests only validate three genuine points; rejection is never tested.",
  [ET], [("isValid", ET)])
p("E06", "Random points, scalars and key pairs are well-formed",
  "Random scalars and secret keys are drawn from the full range [0, order) of the library's big-integer generator, a random point is the generator times such a fresh scalar, and a generated key pair's public key is the generator times its secret key.",
  ["inputs", "histories"], "every draw, every curve",
  "Key-pair generation is never called by a test, and no test can distinguish a truncated or reused range.",
  [ET], [("getRandomPoint, getRandomScalar, generateKeyPair", ET)])
# ---------------------------------------------------------------- DME
p("M01", "Encoding an integer as a curve point and decoding it returns the integer",
  "For every non-negative integer message of up to 200 bits, encoding produces a finite curve point (trying at least 64 candidate abscissae if needed) and decoding that point returns exactly the message; this holds for dual-mode encryption and for ElGamal.",
  I, "all messages in range; every number of rejected candidates up to 64",
  "Tests encode three numbers and hit whatever candidate happens to be on the curve first.",
  ["src/dme/dme.cpp", "src/elgamal/elgamal.cpp", ET], [("shift by the encoding width and try-and-increment", "src/dme/dme.cpp"), ("same for ElGamal", "src/elgamal/elgamal.cpp")])
p("D01", "Dual-mode decryption on the matching branch returns the message",
  "For every instance (messy, decryption or received reference string), both branches, every key pair generated for a branch and every message (point or integer), decrypting a ciphertext encrypted on that branch under that key returns the message.",
  I, "all modes, branches, keys, messages and encryption randomness",
  "Tests sample one key and message per mode and branch; correctness must hold for all randomness.",
  ["src/dme/dme.cpp"], [("KeyGen, Enc, Dec", "src/dme/dme.cpp")])
p("D02", "On the other branch a messy-mode ciphertext hides the message",
  "In messy mode the ciphertext formed on the branch a public key was not generated for carries the message under a one-time pad: the pair (u, v) it is built from is a full-rank image of two fresh random scalars, so u reveals nothing about the mask; and decrypting it with the key holder's secret key does not return the message.",
  I, "all reference strings, keys, branches and messages",
  "Tests only see that the wrong-branch decryption differs from the message for a sample; a mask that is public, constant or reused also differs.",
  ["src/dme/dme.cpp"], [("two independent scalars per encryption", "src/dme/dme.cpp"), ("independent trapdoor exponents", "src/dme/dme.cpp")])
p("D03", "Trapdoors do what they promise in each mode",
  "In messy mode the trapdoor identifies, for every honestly generated public key, the branch that hides its message; in decryption mode the trapdoor generates a public key with two secret keys that decrypt both branches.",
  I, "all reference strings, keys, branches, messages",
  "Sampled once per branch by the tests.",
  ["src/dme/dme.cpp"], [("FindMessy", "src/dme/dme.cpp"), ("TrapKeyGen", "src/dme/dme.cpp")])
p("D04", "Combining ciphertexts adds the messages on either branch",
  "Evaluating two ciphertexts made under the same public key on the same branch gives a ciphertext that the matching key decrypts to the sum of the two messages, for both branches, and evaluation is repeatable without touching its inputs.",
  I, "all messages, both branches, all randomness",
  "Tests evaluate one pair on branch 0.",
  ["src/dme/dmhe.cpp"], [("component-wise sum", "src/dme/dmhe.cpp")])
p("D05", "Parties that adopt a reference string use its points on their own curve",
  "An object constructed from a reference string (encryption, transfer sender/receiver/proxy, OPPRF server/client) uses exactly the four points given, re-attached to its own curve object, so that it stays usable after the object that produced the string is gone; a secret point handed to the OPPRF server is likewise re-attached.",
  ["histories"], "every order of construction and destruction of the parties",
  "Tests happen to keep most producers alive or read freed memory without noticing.",
  ["src/dme/dme.cpp", "includes/ot.hpp", "includes/dot.hpp", "src/opprf/opprf.cpp"], [("updateCurve", "src/dme/dme.cpp"), ("setSecret", "src/opprf/opprf.cpp")])
# ---------------------------------------------------------------- OT
p("O01", "Oblivious transfer delivers the chosen message, for points and integers",
  "For every choice bit and every pair of messages (points, or integers in range), after the receiver selects, the sender encrypts and the receiver decrypts, the receiver holds exactly the chosen message; repeated transfers over the same objects each deliver their own chosen message.",
  ["inputs", "histories"], "both choices, all messages, all randomness, any sequence of transfers",
  "Tests run three sample transfers, integers only on branch 0.",
  ["src/ot/ot.cpp", "src/dme/dme.cpp"], [("selectMsg, encMsgs, decryptMsg", "src/ot/ot.cpp")])
p("O02", "Proxy aggregation of transfers delivers the sum over all senders",
  "For any positive number of senders encrypting under the receiver's key, the aggregated pair of ciphertexts decrypts, on the receiver's branch, to the sum of that branch's messages of all senders; an aggregation is unaffected by earlier ones on the same proxy.",
  ["inputs", "histories"], "all sender counts, both branches, all messages, repeated aggregations",
  "Tests aggregate three senders once on branch 0.",
  ["src/ot/dot.cpp", "src/dme/dmhe.cpp"], [("aggregate", "src/ot/dot.cpp")])
p("R01", "Every secret and every mask is a fresh, full-range, single-use random value",
  "Key pairs, encryption randomness, reference strings, transfer masks, Shamir coefficients, aggregation keys and OPPRF session keys are each drawn anew, for every call, from the library's big-integer generator over their full range; no two of them share a draw and none comes from a weaker or truncated source.",
  ["inputs", "histories"], "every call of every generating operation, in any sequence",
  "Functional tests pass with constant, shared or tiny randomness.",
  [ET, "src/dme/dme.cpp", "src/elgamal/elgamal.cpp", "src/shamirss/shamirss.cpp", "src/puda/puda.cpp", "src/opprf/opprf.cpp", "src/utilities/utilities.cpp"],
  [("getRandomScalar / getRandomPoint", ET), ("getRandom", "src/utilities/utilities.cpp")])
p("G01", "ElGamal decrypts what it encrypts and its keys are well-formed",
  "For every generated key pair (public key = generator times secret key) and every message, a point or an integer in range, decrypting the ElGamal encryption under that pair returns the message.",
  I, "all keys, messages, randomness",
  "There is no ElGamal test and the build does not compile it.",
  ["includes/elgamal.hpp", "src/elgamal/elgamal.cpp"], [("keyGen, encrypt, decrypt, encode, decode", "src/elgamal/elgamal.cpp")])
# ---------------------------------------------------------------- Shamir
p("S01", "Shares are points of a degree t-1 polynomial that hides the secret",
  "getShares(t, n, s) returns n shares with indices 1..n in order whose values are one polynomial of degree at most t-1 with constant term s evaluated at the indices, and its t-1 other coefficients are independent uniform field elements, so any t-1 shares are independent of s.",
  I, "all thresholds t >= 1, all n, all secrets",
  "The one test reconstructs from all shares of one secret; it passes with tiny or missing coefficients.",
  ["src/shamirss/shamirss.cpp"], [("coefficient generation and Horner/power evaluation", "src/shamirss/shamirss.cpp")])
p("S02", "Any t or more distinct shares reconstruct the secret",
  "For every threshold t, every t or more shares with distinct nonzero indices, in any order and from any subset, reconSecret returns the secret the shares were generated from, and leaves the shares unchanged.",
  I, "all t, all subsets of at least t shares, any order, all field values",
  "The one test uses all ten shares in order, never a subset or permutation.",
  ["src/shamirss/shamirss.cpp"], [("Lagrange interpolation at zero", "src/shamirss/shamirss.cpp")])
# ---------------------------------------------------------------- Puda
p("P01", "Private aggregation returns the exact sum of the users' values",
  "For every number of users, every time period and every assignment of values whose sum fits in 16 bits (up to and including 65535), aggregating all users' ciphertexts of that period with the aggregator key returns that sum.",
  I, "all user counts, values, periods, keys",
  "One test with ten users each sending 2; boundary sums, zero and other periods are unreached.",
  ["src/puda/puda.cpp"], [("keys sum to zero; bounded discrete log", "src/puda/puda.cpp")])
p("P02", "Aggregated tags match the verification key and the sum",
  "For every number of users, the sum of all users' tags of a period equals the period hash times the sum of the tag keys plus the generator times the common tag exponent times the sum of the values, and the verification key consists of the second generator times those same two exponents; removing, repeating or altering one tag breaks the relation.",
  I, "all user counts, values, periods, keys",
  "Verification is a stub in the code base and its result is ignored by the test, so no test looks at tags at all.",
  ["src/puda/puda.cpp"], [("Tag, Agg, Setup", "src/puda/puda.cpp")])
p("P03", "Verification rejects a sum that the tags do not authenticate",
  "Verify returns true for the sum and tag produced by an honest aggregation and false when the sum, the tag or the period differs.",
  I, "all sums, tags, periods, keys",
  "The only call in the tests ignores the result.",
  ["src/puda/puda.cpp"], [("Verify", "src/puda/puda.cpp")])
# ---------------------------------------------------------------- OPPRF
p("Q01", "OPPRF gives the client the PRF value exactly when its input is within bounds",
  "For every threshold and every 16-bit client input x <= threshold, a complete protocol run leaves the client with the server's PRF point plus x times the server's secret point; for x > threshold the client's result is instead blinded by an independent random point, and no run ends in a failed decryption.",
  I, "all 2^32 pairs of threshold and input, all keys, all orders of the shuffled ciphertexts",
  "Tests run three inputs below a threshold of 1000; equality, inputs above and other bit patterns are unreached.",
  ["src/opprf/opprf.cpp"], [("per-bit key transition tables", "src/opprf/opprf.cpp"), ("mask delivery", "src/opprf/opprf.cpp")])
p("Q02", "OPPRF never shows the client which comparison state it is in",
  "In every round below the top one the server sends exactly three key ciphertext pairs, one per comparison state, and in the end three masks, each group in an order chosen by a random shuffle on every path before it is returned, so the position of the decryptable one reveals nothing.",
  I, "all rounds, thresholds, and both branches",
  "The client result does not depend on the order, so tests cannot see a missing shuffle.",
  ["src/opprf/opprf.cpp"], [("shuffle before return", "src/opprf/opprf.cpp")])
p("Q03", "OPPRF sessions are independent of earlier sessions",
  "After the cleanup calls (and also when the server prepares a new session without them) the next run uses only keys, masks and blinding drawn in that session, and its result is what a fresh pair of parties would compute; a cleaned client holds no trace of the previous result or key.",
  ["histories"], "all sequences of sessions on the same objects",
  "Tests always clean between sessions and check only the final point.",
  ["src/opprf/opprf.cpp"], [("prepareKeysAndInputs, clean", "src/opprf/opprf.cpp")])
p("Q04", "OPPRF client refuses a round or mask set it cannot decrypt",
  "When none of the received ciphertexts decrypts under the client's current key, the round or unmasking step raises an exception, in release builds too, without changing the client's key or accumulated result.",
  ["inputs", "fault_sequences"], "all corrupted or mismatched rounds and masks",
  "No test sends an undecryptable round.",
  ["src/opprf/opprf.cpp"], [("throw after the decryption loop", "src/opprf/opprf.cpp")])
# ---------------------------------------------------------------- AES/CRC
p("A01", "Symmetric encryption round-trips every message under every key",
  "For every 128-bit key and every positive integer message that the API accepts, including keys, messages and ciphertexts with leading zero bytes, decrypting an encryption under the same key returns the message, with and without the checksum variant, and the documented argument order (key, data) is the real one.",
  I, "all keys up to 128 bits, all message lengths up to 100 bytes, all byte values",
  "One test with one key and message; keys or ciphertexts that start with a zero byte (1 in 256) are never seen.",
  ["src/utilities/aes.cpp", "includes/aes.hpp", "src/utilities/utilities.cpp", "includes/crc.hpp"], [("export/import of integers as bytes", "src/utilities/utilities.cpp"), ("encrypt/decrypt", "src/utilities/aes.cpp")])
p("A02", "Checksum decryption only returns plaintexts whose checksum verifies",
  "decryptCRC returns the payload when the decrypted bytes end in the right checksum of the rest and returns zero in every other case, including wrong keys, tampered or too short ciphertexts.",
  I, "all keys and ciphertexts",
  "Tests decrypt only genuine ciphertexts.",
  ["src/utilities/aes.cpp", "includes/crc.hpp"], [("validate before remove", "src/utilities/aes.cpp")])
p("A03", "Byte-buffer handling never reads or writes out of bounds",
  "For every key, initialisation vector, integer and message length, encryption, decryption and checksum operations stay within the buffers they allocate or are given; input that does not fit is rejected before any buffer is touched.",
  I, "all lengths (including 0, 1..3 bytes, and beyond the internal buffer) and all byte values",
  "Overflow by a few heap bytes is silent in the test run, and tests use one length each.",
  ["src/utilities/aes.cpp", "includes/crc.hpp", "src/utilities/utilities.cpp"], [("fixed and exported buffers", "src/utilities/aes.cpp")])
p("A04", "Every temporary buffer and cipher context is released exactly once",
  "Encryption, decryption and checksum operations release each buffer and cipher context they acquire exactly once on every path that returns or throws, and use none after release.",
  I, "all paths of all operations, all lengths",
  "Leaks do not change results; tests run each operation a few times.",
  ["src/utilities/aes.cpp", "includes/crc.hpp", "src/utilities/utilities.cpp"], [("ownership of exported buffers", "src/utilities/utilities.cpp")])
p("A05", "A failing cipher-library call never yields a ciphertext or plaintext",
  "If any call into the cipher library reports failure, the operation does not return a value as if it had succeeded.",
  ["fault_sequences"], "failure of each individual library call",
  "The library never fails in the tests.",
  ["src/utilities/aes.cpp"], [("result checks of EVP calls", "src/utilities/aes.cpp")])
p("K01", "Checksum tables are the tables of their polynomials",
  "Every entry of every checksum lookup table equals the value its generator polynomial and slice offset define.",
  ["inputs"], "all 256 entries of all tables",
  "One random input touches a fraction of the entries and a self-consistent wrong table round-trips.",
  ["includes/crc.hpp"], [("tables", "includes/crc.hpp")])
p("K02", "The checksum is CRC-32C for every buffer, length and alignment",
  "For every byte string, every starting address alignment and every initial value, the computed checksum equals the bytewise CRC-32C recurrence, so it is independent of alignment and of how the input is chunked.",
  I, "all byte contents, lengths and alignments",
  "One 128-byte buffer at one alignment.",
  ["includes/crc.hpp"], [("slicing loops", "includes/crc.hpp")])
p("K03", "Appending, validating and removing a checksum are consistent",
  "For every positive integer, appending a checksum yields an integer that validates and from which removal returns the original; validation is true exactly when the last four bytes are the checksum of the bytes before them, and is false (not undefined) for integers shorter than five bytes.",
  I, "all integers",
  "One 1024-bit integer.",
  ["includes/crc.hpp"], [("appendCRC, validateCRC, removeCRC", "includes/crc.hpp")])
# ---------------------------------------------------------------- whole library
p("X01", "Every declared building block can actually be instantiated and linked",
  "Every public header compiles on its own and in any combination of translation units, every public member of every template compiles for each supported curve, every source file compiles, and every declared public operation has exactly one definition.",
  ["programs"], "every user program that includes any subset of headers and calls any declared operation",
  "The build compiles only what the tests use; uninstantiated members and undefined declarations go unnoticed.",
  ["includes", "src"], [("declarations and definitions", "includes")])
p("X02", "Objects that own memory can be copied, assigned and destroyed safely",
  "Copying or assigning any scheme or protocol object (encryption, transfer, aggregation, OPPRF, curves) yields an independent object with the same parameters and keys whose points refer to its own curve; destroying or changing either never affects the other and no memory is released twice.",
  ["programs", "histories"], "all sequences of copy, assignment, use and destruction",
  "Tests never copy an owning object.",
  ["includes/dme.hpp", "src/dme/dme.cpp", "includes/puda.hpp", "src/puda/puda.cpp", "includes/opprf.hpp", "includes/ot.hpp", ET], [("constructors/destructor of owning classes", "src/dme/dme.cpp")])
p("X03", "Results depend only on arguments, the object and the random generator",
  "No operation reads or writes hidden mutable state other than the random generators and the configured cipher IV, so equal objects and arguments behave equally whatever was called before.",
  ["histories"], "all call sequences over all objects",
  "Tests make one fixed sequence of calls.",
  ["includes", "src"], [("absence of mutable globals and function-local statics", "includes")])
p("X04", "Every operation returns a defined value on every path",
  "No value-returning operation can run off its end, and no operation reads a member or local that no path has initialised.",
  I, "all paths of all operations",
  "Tests reach a fraction of the paths and undefined values often look plausible.",
  ["includes", "src"], [("return statements and initialisers", "src/dme/dme.cpp")])
p("X05", "Input rejection works in release builds",
  "Checks that reject bad input at run time (invalid secret points, undecryptable rounds) are enforced independently of whether assertions are compiled in.",
  ["inputs", "configurations"], "all rejected inputs, assertion-enabled and release builds",
  "The project's own build type disables assertions and no test passes bad input.",
  ["src/opprf/opprf.cpp"], [("setSecret validation", "src/opprf/opprf.cpp")])
# ---------------------------------------------------------------- declined
p("N01", "Secret-dependent operations take secret-independent time",
  "Scalar multiplication, decryption and discrete-log search take time independent of secret scalars, keys and messages.",
  I, "all secrets", "Timing is not observed by tests.",
  [ET], [("double-and-add", ET)])
p("N02", "Ciphertexts and transcripts are computationally indistinguishable",
  "No efficient observer of ciphertexts, public keys or OPPRF transcripts learns anything about the messages, choice bits or inputs beyond the protocol output, assuming decisional Diffie-Hellman.",
  I, "all efficient adversaries", "Security against adversaries is not testable.",
  ["src/dme/dme.cpp", "src/opprf/opprf.cpp"], [("DDH-based masking", "src/dme/dme.cpp")])
p("N03", "Random secrets are unpredictable to an outsider",
  "The secrets produced in one program run cannot be predicted from outside or from another run.",
  ["histories"], "all runs", "Tests rely on the deterministic default seed.",
  [ET, "src/utilities/utilities.cpp"], [("generator initialisation", ET)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
