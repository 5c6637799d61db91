// Uses of the transfer classes' public interface.
#include "dot.hpp"
using namespace ot;
namespace w_ot {
  typedef dme::FIELD_n S; typedef dme::POINT P;
  dme::CURVE mkcurve() { dme::CURVE c; return c; }
  mpz_class order(const dme::CURVE& c) { return c.getOrder(); }
  P gen(const dme::CURVE& c) { return c.getDefaultGen(); }
  P dflt() { P a; return a; }
  S szero() { return S(); }
  dme::CRS_DDH mkCRS(const P& a, const P& b, const P& c, const P& d) { return dme::CRS_DDH(a, b, c, d); }
  const dme::CRS_DDH& crs(const dme::DME_DDH& d) { return d.crs; }
  dme::DME_DDH* mkmode(dme::mode_t m) { return new dme::DME_DDH(m); }
  void deldme(dme::DME_DDH* d) { delete d; }
  OTrecv* recv(const dme::CRS_DDH& c) { return new OTrecv(c); }
  OTrecv* drecv(const dme::CRS_DDH& c) { return new DOTrecv(c); }
  OTrecv* recvmode(dme::mode_t m) { return new OTrecv(m); }
  OTrecv* recvcopy(const OTrecv& r) { return new OTrecv(r); }
  void recvasg(OTrecv& a, const OTrecv& b) { a = b; }
  void recvasgself(OTrecv& a) { OTrecv& b = a; a = b; }
  void delrecv(OTrecv* r) { delete r; }
  dme::CURVE* rcurve(OTrecv& r) { return r.getCurve(); }
  dme::branch_t branch(OTrecv& r) { return r.getBranch(); }
  dme::pkey_t select(OTrecv& r, dme::branch_t b) { return r.selectMsg(b); }
  P dec(const OTrecv& r, const ctxt_v_t& c) { return r.decryptMsg(c); }
  mpz_class decz(const OTrecv& r, const ctxt_v_t& c) { return r.decryptMsgDecode(c); }
  OTsndr* sndr(const dme::CRS_DDH& c) { return new OTsndr(c); }
  OTsndr* dsndr(const dme::CRS_DDH& c) { return new DOTsndr(c); }
  OTsndr* sndrmode(dme::mode_t m) { return new OTsndr(m); }
  OTsndr* sndrcopy(const OTsndr& r) { return new OTsndr(r); }
  void sndrasg(OTsndr& a, const OTsndr& b) { a = b; }
  void sndrasgself(OTsndr& a) { OTsndr& b = a; a = b; }
  void delsndr(OTsndr* r) { delete r; }
  dme::CURVE* scurve(OTsndr& s) { return s.getCurve(); }
  P rndmsg(OTsndr& s) { return s.getRandomMsg(); }
  ctxt_v_t enc(OTsndr& s, const dme::pkey_t& pk, const P& a, const P& b) { return s.encMsgs(pk, a, b); }
  ctxt_v_t encz(OTsndr& s, const dme::pkey_t& pk, const mpz_class& a, const mpz_class& b) { return s.encMsgs(pk, a, b); }
  DOTprxy* prxy(const dme::CRS_DDH& c) { return new DOTprxy(c); }
  DOTprxy* prxycopy(const DOTprxy& c) { return new DOTprxy(c); }
  void prxyasg(DOTprxy& a, const DOTprxy& b) { a = b; }
  void prxyasgself(DOTprxy& a) { DOTprxy& b = a; a = b; }
  void delprxy(DOTprxy* r) { delete r; }
  std::vector<ctxt_v_t> none() { return std::vector<ctxt_v_t>(); }
  void push(std::vector<ctxt_v_t>& v, const ctxt_v_t& c) { v.push_back(c); }
  ctxt_v_t aggregate(DOTprxy& p, const std::vector<ctxt_v_t>& v) { return p.aggregate(v); }
  ctxt_v_t cvcopy(const ctxt_v_t& v) { return v; }
  size_t size(const ctxt_v_t& v) { return v.size(); }
  size_t vsize(const std::vector<ctxt_v_t>& v) { return v.size(); }
  const dme::ctxt_t& at(const ctxt_v_t& v, size_t i) { return v[i]; }
  const ctxt_v_t& vat(const std::vector<ctxt_v_t>& v, size_t i) { return v[i]; }
  const P& ct_u(const dme::ctxt_t& c) { return c.u; }
  const P& ct_mv(const dme::ctxt_t& c) { return c.mv; }
  const P& pk_g(const dme::pkey_t& c) { return c.g; }
  const P& pk_h(const dme::pkey_t& c) { return c.h; }
}
