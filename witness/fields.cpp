// Uses of the field classes' public interface, one per operation.
#include "field_bn254.hpp"
#include "field_secp256r1.hpp"
template class field::PrimeField<field::Field_bn254_p>;
template class field::PrimeField<field::Field_bn254_n>;
template class field::PrimeField<field::Field_secp256r1_p>;
template class field::PrimeField<field::Field_secp256r1_n>;
#define W(NS, F) namespace NS { typedef field::F E; \
  E dflt() { E e; return e; } \
  E from(const mpz_class& v) { return E(v); } \
  E conv(const mpz_class& v) { E e = v; return e; } \
  E fromint(int v) { return E(v); } \
  E copy(const E& a) { E e(a); return e; } \
  E assign(const E& a) { E e; e = a; return e; } \
  E& assignself(E& a) { E& b = a; return a = b; } \
  E& asg(E& a, const E& b) { return a = b; } \
  E chain(const E& a, E& b) { E e; e = b = a; return e; } \
  E add(const E& a, const E& b) { return a + b; } \
  E sub(const E& a, const E& b) { return a - b; } \
  E neg(const E& a) { return -a; } \
  E mul(const E& a, const E& b) { return a * b; } \
  E mulz(const E& a, const mpz_class& b) { return a * b; } \
  E sq(const E& a) { return a.square(); } \
  E inv(const E& a) { return a.invert(); } \
  E div(const E& a, const E& b) { return a / b; } \
  bool eq(const E& a, const E& b) { return a == b; } \
  mpz_class raw(const E& a) { return a.getRawValue(); } \
  mpz_class mod(const E& a) { return a.getField(); } \
  E& addas(E& a, const E& b) { return a += b; } \
  E& subas(E& a, const E& b) { return a -= b; } \
  E& mulas(E& a, const E& b) { return a *= b; } \
  E& mulasz(E& a, const mpz_class& b) { return a *= b; } \
  E& divas(E& a, const E& b) { return a /= b; } \
  E& addself(E& a) { return a += a; } \
  E& subself(E& a) { return a -= a; } \
  E& mulself(E& a) { return a *= a; } \
  E& divself(E& a) { return a /= a; } \
  bool eqself(const E& a) { return a == a; } \
}
W(w_bn254_p, Field_bn254_p)
W(w_bn254_n, Field_bn254_n)
W(w_secp256r1_p, Field_secp256r1_p)
W(w_secp256r1_n, Field_secp256r1_n)
