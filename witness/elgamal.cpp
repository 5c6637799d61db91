// Uses of the ElGamal class' public interface.
#include "elgamal.hpp"
using namespace elgamal;
namespace w_eg {
  typedef FIELD_n S; typedef POINT P;
  CURVE mkcurve() { CURVE c; return c; }
  mpz_class order(const CURVE& c) { return c.getOrder(); }
  P gen(const CURVE& c) { return c.getDefaultGen(); }
  P dflt() { P a; return a; }
  S szero() { return S(); }
  ElGamal* mk() { return new ElGamal(); }
  ElGamal* copy(const ElGamal& e) { return new ElGamal(e); }
  void asg(ElGamal& a, const ElGamal& b) { a = b; }
  void asgself(ElGamal& a) { ElGamal& b = a; a = b; }
  void del(ElGamal* e) { delete e; }
  keypair_t keygen(ElGamal& e) { return e.keyGen(); }
  const S& kp_sk(const keypair_t& k) { return k.sk; }
  const P& kp_pk(const keypair_t& k) { return k.pk; }
  ctxt_t enc(ElGamal& e, const pkey_t& pk, const P& m) { return e.encrypt(pk, m); }
  ctxt_t encz(ElGamal& e, const pkey_t& pk, const mpz_class& m) { return e.encrypt(pk, m); }
  mpz_class decz(const ElGamal& e, const skey_t& sk, const ctxt_t& c) { return e.decrypt(sk, c); }
  const P& ct_u(const ctxt_t& c) { return c.u; }
  const P& ct_mv(const ctxt_t& c) { return c.mv; }
}
