"""Which property is decided by which analysis."""
import importlib
GVN = 'abstract interpretation of the type-resolved syntax tree: gated value numbering to algebraic normal forms'
def c(mod, tech, note): return dict(mod=mod, technique=tech, note=note)
CHECKS = {
 'F01': c('fields', GVN + ', residue intervals', 'All four field classes, every constructor and operator, operands unknown (the whole residue range, every integer): the raw value of each result has to stay within [0,p) and the modulus has to be the own one, on every branch of the code. Exact for GMP operations modelled by their documented meaning; no bound.'),
 'F02': c('fields', GVN + ' over GF(p)', 'The normal form of each result, for unknown operands, has to be the rational function over GF(p) that the operation defines. No bound.'),
 'F03': c('fields', GVN + ', alias and write tracking', 'Compound against plain operators of fields and points, with distinct and identical operands; the returned reference has to be the left operand; contents of every other operand before and after are compared. No bound.'),
 'V01': c('fields', GVN, 'Equality of every value type on two values with unknown components: the decision diagram of the result has to be the conjunction of the component equalities, and the same with the operands exchanged. No bound.'),
 'V02': c('fields', GVN + ', alias and write tracking', 'Copy, assignment, self-assignment and construction of every value type from unknown components: component normal forms compared, the source unchanged, no undefined operation. No bound.'),
 'C01': c('params', 'constant propagation through the constructors, then number theory on the constants', 'Values that the constructors and field classes store, propagated as constants, compared with each other and with the published parameters; primality and generator order decided arithmetically by the checker. No bound.'),
 'E01': c('points', GVN + ' modulo the curve equation', 'Addition and doubling on unknown curve points; the case split (equal, opposite, infinite, y=0) is part of the normal form; coordinates compared as rational functions modulo the curve equations. No bound.'),
 'E02': c('points', GVN + ' modulo the curve equation', 'Subtraction and its cases on unknown curve points, coordinates and curve object of the result. No bound.'),
 'E03': c('points', GVN + ' over linear combinations of a point', 'Scalar multiplication with the group operations replaced by their specification (decided by E01): one analysis per bit length of the scalar (all of 0..256, two curves) with every bit unknown, plus integer forms with any sign and size; the result has to be the scalar times the point. Bounded only by the bit length of reduced scalars, which is complete.'),
 'E04': c('points', GVN + ' modulo the curve equation', 'Lifting of an unknown abscissa (square roots by the exponentiation (p+1)/4 are recognised as such) and the compressed encoding; no bound on the abscissa.'),
 'E05': c('points', GVN, 'The decision diagram of isValid on unknown coordinates, moduli and curve pointer has to be exactly the specified condition. No bound.'),
 'E06': c('points', GVN + ', provenance of draws', 'Every draw is a fresh unknown with its range; results compared with generator times draw. No bound; that GMP delivers uniform values in the range is assumed.'),
 'K01': c('crc', 'evaluation of constant initialisers', 'All 2560 table entries compared with the polynomial division that defines them. Complete.'),
 'K02': c('crc', GVN + ' over GF(2)-affine bit vectors', 'One analysis per length and address alignment with every bit of the buffer and of the initial value unknown; the 32 result bits, affine in the unknown bits, have to be those of the bytewise recurrence. Lengths 0–44, 64, 100, 128, 255–257 and every integer constant of the code ±1 up to 300 (4200 thorough), alignment 0..7; a length beyond is not covered.'),
 'K03': c('crc', GVN + ' over GF(2)-affine bit vectors', 'Append, validate and remove on integers of every bit length to the bound, all bits unknown; validation compared bit by bit with the specified condition; heap events. Bit lengths 0–74 quick, 0–329 thorough, plus constants of the code ±1.'),
 'D01': c('dme', GVN + ' over linear combinations of points', 'Every kind of instance, branch and message with all draws unknown: decryption has to have the normal form of the message. Field, point and lifting operations by specification (F, E groups). No bound on values; two ciphertexts per key in sequence.'),
 'D02': c('dme', GVN + ', rank over GF(order)', 'Full rank of (u, mask) as a function of the fresh scalars on the other branch, and the normal form of the wrong decryption. Decides the perfect hiding of the algebra, not indistinguishability (N02).'),
 'D03': c('dme', GVN + ' over linear combinations of points', 'FindMessy on own and foreign honest keys, TrapKeyGen keys on both branches, all draws unknown. No bound.'),
 'D04': c('dme', GVN + ' over linear combinations of points', 'Eval of unknown ciphertexts of one key, both branches, repeated; inputs compared before and after. No bound.'),
 'D05': c('opprf', GVN + ', pointer analysis of curve references', 'Every constructor that takes a reference string (and setSecret): coordinates kept and the curve pointer is the own curve, also after the donor is destroyed. No bound.'),
 'M01': c('dme', GVN + ', candidate counting', 'Encoding of an unknown integer of up to 200 bits; whether a candidate abscissa is on the curve is unknown for the first 64 candidates of the loop; the loop is summarised, decoding of any candidate compared with the message. No bound on the message beyond the statement.'),
 'G01': c('elgamal', GVN + ' over linear combinations of points', 'Own, copied and assigned objects, two keys and messages each, all draws unknown. No bound on values.'),
 'O01': c('ot', GVN + ' over linear combinations of points', 'Both choices, three transfers over the same objects, points and integers, every kind of reference string, parties that share or only copy it. No bound on values.'),
 'O02': c('ot', GVN + ' over linear combinations of points', '1..5 senders (1..12 thorough), two aggregations on one proxy. Values unbounded, number of senders bounded.'),
 'R01': c('rnd', GVN + ', provenance and Jacobian rank of secrets in the draws', 'Every secret of every scheme over several calls: each is, jointly with all the others, an independent full-range function of draws of the big-integer generator (rank over GF(order)), none shared, truncated or from another source. Treats each generator as an ideal independent source (see N03).'),
 'S01': c('shamir', GVN, 'Shares as polynomials in the draws; thresholds and share counts to a bound (all small, selected to 260), values unknown.'),
 'S02': c('shamir', GVN + ' over GF(order)', 'Reconstruction of unknown polynomials from subsets and orders of shares with unknown or concrete distinct indices, to a bound on the number of shares; values unknown.'),
 'P01': c('puda', GVN + ', loop summary of the discrete-logarithm search', 'Sum of unknown values by a search loop that is recognised as complete up to 65535; 0–3 users quick, 0–6 thorough, values and period unknown.'),
 'P02': c('puda', GVN + ' over linear combinations of points', 'Tag relation with unknown keys, values, period; altered, repeated and removed tags must not satisfy it; 0–3 users quick, 0–6 thorough.'),
 'P03': c('puda', GVN, 'Verify on an honest and on altered sums, tags and periods. The missing pairing check is recorded as a known finding.'),
 'Q01': c('opprf', GVN + ' over linear combinations of points and symbolic keys', 'The complete protocol with unknown threshold and input (all 2^32 pairs at once, the comparison states as decision diagrams over their bits), every kind of reference string, copies. AES with checksum by its specification (A group), shuffles as unknown permutations.'),
 'Q02': c('opprf', GVN + ', taint of permutations', 'Number of pairs per round, and that on every path each position is chosen by a shuffle of the whole group made after the last write. All rounds.'),
 'Q03': c('opprf', GVN, 'Sequences of two sessions (complete or interrupted, with and without cleanup on either side): the second uses only draws of the second and gives the specified result; a cleaned client holds no earlier value.'),
 'Q04': c('opprf', GVN, 'Rounds and masks of another session or tampered ones, with release and debug flags: an exception on every path and key and result unchanged. All rounds.'),
 'A01': c('aes', GVN + ' over GF(2)-affine bit vectors', 'Messages and keys of each bit length to the bound, all bits unknown, the cipher a key-dependent unknown pad; leading zero bytes included. Lengths beyond the bound are not covered.'),
 'A02': c('aes', GVN + ' over GF(2)-affine bit vectors', 'Any ciphertext of each byte length to the bound and any plaintext it decrypts to: the result is the payload exactly when the checksum condition holds.'),
 'A03': c('aes', 'interval analysis of every buffer access over ' + GVN, 'Each length to the bound plus symbolic large lengths: every access within its buffer, rejection before any access.'),
 'A04': c('aes', 'typestate of buffers and cipher contexts over ' + GVN, 'Allocated, used, released exactly once on every path including the throwing ones.'),
 'A05': c('aes', 'failure injection into each library call site in the abstract semantics', 'For every call site of the cipher library: if it reports failure the operation does not return a value.'),
 'X01': c('units', 'declaration and definition analysis over all translation units, forced template instantiation', 'Front end on every header alone, twice, in pairs and with each build setting; explicit instantiation of each class template; every declared public operation has exactly one definition. Operations that were never written are recorded as known findings.'),
 'X02': c('life', 'ownership and liveness tracking over ' + GVN, 'Every scheme and protocol object: copies and assignments in both orders of destruction; values, own curve pointers, no second release, no use of the dead one.'),
 'X03': c('meta', 'effect analysis of static objects over ' + GVN + '; syntactic write analysis of every function', 'Static objects compared before and after the operations of the scenarios of the other checks, initialisers of function-local statics compared between first calls, and no function of the repository writes a static object.'),
 'X04': c('meta', 'definite initialisation and definite return over ' + GVN, 'The scenarios of the other checks in strict mode; functions no scenario reaches by the front end\'s definite-return and definite-initialisation analysis.'),
 'X05': c('reject', GVN + ', twice: assertions compiled in and out', 'The refusing operations accept exactly the specified inputs in both configurations.'),
}
NOT_APPLICABLE = {
 'N01': 'Timing: the library computes on GMP integers with variable-time routines and searches a discrete logarithm by design; the property does not hold for this code base by construction and a static taint analysis would only restate that every secret reaches a variable-time routine.',
 'N02': 'Computational indistinguishability is a statement about all efficient observers under a hardness assumption; no static analysis of the source bounds it. What is algebraic in it (one-time pads, full-rank masks) is decided by D02, S01 and R01.',
 'N03': 'The generators of the library are never seeded from an entropy source (gmp_randinit_default), so the property is false as a matter of design; the entropy of a run is not a fact of the source that an analysis could establish. That every secret is a fresh full-range draw of the generator is decided by R01.',
}
def load(pid):
    return getattr(importlib.import_module('engine.props.' + CHECKS[pid]['mod']), pid)
