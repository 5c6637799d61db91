// Uses of the curve and point classes' public interface.
#include "ecc_bn254.hpp"
#include "ecc_secp256r1.hpp"
#define W(NS, CV, PT, FP, FN, KP) namespace NS { \
  typedef ecc::CV C; typedef ecc::PT P; typedef field::FP F; typedef field::FN S; \
  typedef ecc::KeyPair<C, P, F, S> K; \
  C mkcurve() { C c; return c; } \
  C copycurve(const C& a) { C c(a); return c; } \
  C& asgcurve(C& a, const C& b) { return a = b; } \
  C* addr(C& c) { return &c; } \
  bool eqcurve(const C& a, const C& b) { return a == b; } \
  mpz_class prime(const C& c) { return c.getPrime(); } \
  mpz_class order(const C& c) { return c.getOrder(); } \
  mpz_class ca(const C& c) { return c.getA(); } \
  mpz_class cb(const C& c) { return c.getB(); } \
  F caf(const C& c) { return c.getAField(); } \
  F cbf(const C& c) { return c.getBField(); } \
  P gen(const C& c) { return c.getDefaultGen(); } \
  F fzero() { return F(); } \
  F setf(const F& x, const mpz_class& q) { F y = x; y.setField(q); return y; } \
  P nullcurve(const F& x, const F& y) { return P(x, y, nullptr); } \
  S szero() { return S(); } \
  P mk(bool inf, const F& x, const F& y, C* c) { if (inf) return P(); return P(x, y, c); } \
  P ofz(const mpz_class& x, const mpz_class& y, C* c) { return P(x, y, c); } \
  P off(const F& x, const F& y, C* c) { return P(x, y, c); } \
  P ofstr(C* c) { return P(std::string("1234567"), std::string("89"), c); } \
  P ofstr16(C* c) { return P(std::string("1234567"), std::string("ab"), c, 16); } \
  P ofchar(C* c) { return P("1234567", "89", c); } \
  P ofchar16(C* c) { return P("1234567", "ab", c, 16); } \
  P dflt() { P a; return a; } \
  P attach(const P& a, C* c) { P b = a; b.curve = c; return b; } \
  F getx(const P& a) { return a.getX(); } \
  F gety(const P& a) { return a.getY(); } \
  bool inf(const P& a) { return a.isInf(); } \
  C* curve(const P& a) { return a.curve; } \
  bool valid(const P& a) { return a.isValid(); } \
  bool eq(const P& a, const P& b) { return a == b; } \
  bool eqself(const P& a) { return a == a; } \
  P copy(const P& a) { P b(a); return b; } \
  P assign(const P& a) { P b; b = a; return b; } \
  P& asg(P& a, const P& b) { return a = b; } \
  P& asgself(P& a) { P& b = a; return a = b; } \
  P chain(const P& a, P& b) { P c; c = b = a; return c; } \
  P dbl(const P& a) { return a.pointDouble(); } \
  P add(const P& a, const P& b) { return a + b; } \
  P addsame(const P& a) { return a + a; } \
  P sub(const P& a, const P& b) { return a - b; } \
  P subsame(const P& a) { return a - a; } \
  P& addas(P& a, const P& b) { return a += b; } \
  P& subas(P& a, const P& b) { return a -= b; } \
  P& addself(P& a) { return a += a; } \
  P& subself(P& a) { return a -= a; } \
  P mulz(const P& a, const mpz_class& k) { return a * k; } \
  P mulf(const P& a, const S& k) { return a * k; } \
  P& mulzas(P& a, const mpz_class& k) { return a *= k; } \
  P& mulfas(P& a, const S& k) { return a *= k; } \
  S sc(const mpz_class& k) { return S(k); } \
  P lift(C& c, const F& x) { return c.evaluateP(x); } \
  P liftneg(C& c, const F& x) { return c.evaluatePneg(x); } \
  F py2(const C& c, const F& x) { return c.evaluatePy2(x); } \
  mpz_class enc(const P& a) { return a.getEncodedX(); } \
  P dec(C* c, const mpz_class& e) { P b; b.curve = c; b.setEncodedX(e); return b; } \
  P encdec(const P& a, C* c) { P b; b.curve = c; b.setEncodedX(a.getEncodedX()); return b; } \
  P rndp(const C& c) { return c.getRandomPoint(); } \
  S rnds(const C& c) { return c.getRandomScalar(); } \
  mpz_class ksk(const C& c, P& pk) { auto k = c.generateKeyPair(); pk = k.pk; return k.sk; } \
  mpz_class kpsk(const mpz_class& s, const P& a, P& pk) { K k(s, a); K l(k); pk = l.pk; return l.sk; } \
}
W(w_bn254, Curve_bn254, Point_bn254, Field_bn254_p, Field_bn254_n, KeyPair_bn254)
W(w_secp256r1, Curve_secp256r1, Point_secp256r1, Field_secp256r1_p, Field_secp256r1_n, KeyPair_secp256r1)
