// Uses of the dual-mode encryption classes' public interface.
#include "dme.hpp"
#include "dmhe.hpp"
#include "crc.hpp"
using namespace dme;
namespace w_dme {
  typedef FIELD_n S; typedef POINT P;
  CURVE mkcurve() { CURVE c; return c; }
  mpz_class order(const CURVE& c) { return c.getOrder(); }
  P gen(const CURVE& c) { return c.getDefaultGen(); }
  P dflt() { P a; return a; }
  S szero() { return S(); }
  DME_DDH* mkmode(dme::mode_t m) { return new DME_DDH(m); }
  DME_DDH* mkdflt() { return new DME_DDH(); }
  DME_DDH* mkcrs(const CRS_DDH& c) { return new DME_DDH(c); }
  DME_DDH* copy(const DME_DDH& d) { return new DME_DDH(d); }
  void asg(DME_DDH& a, const DME_DDH& b) { a = b; }
  void asgself(DME_DDH& a) { DME_DDH& b = a; a = b; }
  void del(DME_DDH* d) { delete d; }
  CURVE* curve(DME_DDH& d) { return d.getCurve(); }
  CRS_DDH& crs(DME_DDH& d) { return d.crs; }
  keypair_t keygen(const DME_DDH& d, branch_t b) { return d.KeyGen(b); }
  ctxt_t enc(const DME_DDH& d, const pkey_t& pk, branch_t b, const P& m) { return d.Enc(pk, b, m); }
  ctxt_t encz(const DME_DDH& d, const pkey_t& pk, branch_t b, const mpz_class& m) { return d.Enc(pk, b, m); }
  ctxt_t enccrc(const DME_DDH& d, const pkey_t& pk, branch_t b, const mpz_class& m) { return d.EncCRC(pk, b, m); }
  P dec(const DME_DDH& d, const skey_t& sk, const ctxt_t& c) { return d.Dec(sk, c); }
  mpz_class decz(const DME_DDH& d, const skey_t& sk, const ctxt_t& c) { return d.DecDecode(sk, c); }
  mpz_class deccrc(const DME_DDH& d, const skey_t& sk, const ctxt_t& c) { return d.DecDecodeCRC(sk, c); }
  P encode(const DME_DDH& d, const mpz_class& m) { return d.encode(m); }
  mpz_class decode(const DME_DDH& d, const P& m) { return d.decode(m); }
  branch_t findmessy(const DME_DDH& d, const pkey_t& pk) { return d.FindMessy(pk); }
  void trap(const DME_DDH& d, pkey_t& pk, skey_t& s0, skey_t& s1) { auto t = d.TrapKeyGen(); pk = std::get<0>(t); s0 = std::get<1>(t); s1 = std::get<2>(t); }
  DMHE_DDH* mkhe(dme::mode_t m) { return new DMHE_DDH(m); }
  DMHE_DDH* mkhecrs(const CRS_DDH& c) { return new DMHE_DDH(c); }
  DMHE_DDH* hecopy(const DMHE_DDH& d) { return new DMHE_DDH(d); }
  void heasg(DMHE_DDH& a, const DMHE_DDH& b) { a = b; }
  void heasgself(DMHE_DDH& a) { DMHE_DDH& b = a; a = b; }
  DME_DDH& base(DMHE_DDH& d) { return d; }
  void delhe(DMHE_DDH* d) { delete d; }
  ctxt_t eval(const DMHE_DDH& d, const ctxt_t& a, const ctxt_t& b) { return d.Eval(a, b); }
  // value types
  CRS_DDH mkCRS(const P& a, const P& b, const P& c, const P& d) { return CRS_DDH(a, b, c, d); }
  td_messy_DDH mkTDM(const S& a, const S& b) { return td_messy_DDH(a, b); }
  td_dec_DDH mkTDD(const S& a) { return td_dec_DDH(a); }
  pkey_t mkPK(const P& a, const P& b) { return pkey_t(a, b); }
  keypair_t mkKP(const pkey_t& a, const S& b) { return keypair_t(a, b); }
  ctxt_t mkCT(const P& a, const P& b) { return ctxt_t(a, b); }
  const P& crs_g0(const CRS_DDH& c) { return c.g0; }
  const P& crs_g1(const CRS_DDH& c) { return c.g1; }
  const P& crs_h0(const CRS_DDH& c) { return c.h0; }
  const P& crs_h1(const CRS_DDH& c) { return c.h1; }
  const S& tdm_e0(const td_messy_DDH& c) { return c.e0; }
  const S& tdm_e1(const td_messy_DDH& c) { return c.e1; }
  const S& tdd_y(const td_dec_DDH& c) { return c.y; }
  const P& pk_g(const pkey_t& c) { return c.g; }
  const P& pk_h(const pkey_t& c) { return c.h; }
  const pkey_t& kp_pk(const keypair_t& c) { return c.pk; }
  const S& kp_sk(const keypair_t& c) { return c.sk; }
  const P& ct_u(const ctxt_t& c) { return c.u; }
  const P& ct_mv(const ctxt_t& c) { return c.mv; }
  void crs_update(CRS_DDH& c, CURVE* k) { c.updateCurve(k); }
#define V(N, T) \
  T N##_dflt() { return T(); } \
  T N##_copy(const T& a) { T b(a); return b; } \
  T N##_assign(const T& a) { T b; b = a; return b; } \
  T& N##_asg(T& a, const T& b) { return a = b; } \
  T& N##_asgself(T& a) { T& b = a; return a = b; } \
  T N##_chain(const T& a, T& b) { T c; c = b = a; return c; } \
  bool N##_eq(const T& a, const T& b) { return a == b; } \
  bool N##_eqself(const T& a) { return a == a; }
  V(CRS, CRS_DDH) V(TDM, td_messy_DDH) V(TDD, td_dec_DDH) V(PK, pkey_t) V(KP, keypair_t) V(CT, ctxt_t)
}
