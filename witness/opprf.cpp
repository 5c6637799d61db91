// Uses of the OPPRF public interface.
#include "opprf.hpp"
using namespace opprf;
namespace w_opprf {
  typedef dme::FIELD_n S; typedef dme::POINT P;
  dme::CURVE mkcurve() { dme::CURVE c; return c; }
  mpz_class order(const dme::CURVE& c) { return c.getOrder(); }
  P gen(const dme::CURVE& c) { return c.getDefaultGen(); }
  P dflt() { P a; return a; }
  S szero() { return S(); }
  dme::CRS_DDH mkCRS(const P& a, const P& b, const P& c, const P& d) { return dme::CRS_DDH(a, b, c, d); }
  const dme::CRS_DDH& crs(const dme::DME_DDH& d) { return d.crs; }
  dme::DME_DDH* mkmode(dme::mode_t m) { return new dme::DME_DDH(m); }
  void deldme(dme::DME_DDH* d) { delete d; }
  short rounds() { return MSG_BITS; }
  OPPRFserver* server(msg_t t, const dme::CRS_DDH& c) { return new OPPRFserver(t, c); }
  OPPRFserver* scopy(const OPPRFserver& s) { return new OPPRFserver(s); }
  void sasg(OPPRFserver& a, const OPPRFserver& b) { a = b; }
  void sasgself(OPPRFserver& a) { OPPRFserver& b = a; a = b; }
  void casgself(OPPRFclient& a) { OPPRFclient& b = a; a = b; }
  void dels(OPPRFserver* s) { delete s; }
  OPPRFclient* client(const dme::CRS_DDH& c) { return new OPPRFclient(c); }
  OPPRFclient* ccopy(const OPPRFclient& c) { return new OPPRFclient(c); }
  void casg(OPPRFclient& a, const OPPRFclient& b) { a = b; }
  void delc(OPPRFclient* c) { delete c; }
  void secret(OPPRFserver& s, P& g) { s.setSecret(g); }
  bool trysecret(OPPRFserver& s, P& g) { try { s.setSecret(g); return true; } catch (...) { return false; } }
  void prepare(OPPRFserver& s) { s.prepareKeysAndInputs(); }
  P kopprf(OPPRFserver& s) { return s.getKOPPRF(); }
  void sclean(OPPRFserver& s) { s.clean(); }
  ot_ctxts_t send(OPPRFserver& s, short i, const dme::pkey_t& pk) { return s.runOTRound(i, pk); }
  symctxt_t masks(OPPRFserver& s) { return s.sendEncryptedMasks(); }
  void message(OPPRFclient& c, msg_t m) { c.setMessage(m); }
  P result(OPPRFclient& c) { return c.getResult(); }
  void cclean(OPPRFclient& c) { c.clean(); }
  dme::pkey_t start(OPPRFclient& c, short i) { return c.runOTRound_start(i); }
  void end(OPPRFclient& c, short i, const ot_ctxts_t& x) { c.runOTRound_end(i, x); }
  bool tryend(OPPRFclient& c, short i, const ot_ctxts_t& x) { try { c.runOTRound_end(i, x); return true; } catch (...) { return false; } }
  void unmask(OPPRFclient& c, const symctxt_t& m) { c.unmaskResult(m); }
  bool tryunmask(OPPRFclient& c, const symctxt_t& m) { try { c.unmaskResult(m); return true; } catch (...) { return false; } }
  const ot::ctxt_v_t& ctxt(const ot_ctxts_t& c, size_t i) { return c.ctxt[i]; }
  size_t nctxt(const ot_ctxts_t& c) { return c.ctxt.size(); }
  const ot::ctxt_v_t& cprf(const ot_ctxts_t& c) { return c.cprf; }
  ot_ctxts_t ccopyot(const ot_ctxts_t& c) { return c; }
  size_t csize(const ot::ctxt_v_t& c) { return c.size(); }
  const P& ct_u(const ot::ctxt_v_t& c, size_t i) { return c[i].u; }
  const P& ct_mv(const ot::ctxt_v_t& c, size_t i) { return c[i].mv; }
  aes::ctxt_t mask(const symctxt_t& c, size_t i) { return c[i]; }
  size_t nmask(const symctxt_t& c) { return c.size(); }
  symctxt_t mkmasks(const aes::ctxt_t& a, const aes::ctxt_t& b, const aes::ctxt_t& c) { symctxt_t r; r[0] = a; r[1] = b; r[2] = c; return r; }
  dme::CURVE* ptcurve(const P& p) { return (dme::CURVE*)p.curve; }
}
