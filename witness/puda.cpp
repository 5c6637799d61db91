// Uses of the private aggregation class' public interface.
#include "puda.hpp"
using namespace puda;
namespace w_puda {
  typedef FIELD1_n S; typedef POINT1 P;
  CURVE1 mkcurve() { CURVE1 c; return c; }
  mpz_class order(const CURVE1& c) { return c.getOrder(); }
  P gen(const CURVE1& c) { return c.getDefaultGen(); }
  P dflt() { P a; return a; }
  S szero() { return S(); }
  struct keys { ek_v_t ek; sk_v_t sk; ak_t ak; vk_t vk; };
  Puda* mk() { return new Puda(); }
  Puda* copy(const Puda& p) { return new Puda(p); }
  void asg(Puda& a, const Puda& b) { a = b; }
  void asgself(Puda& a) { Puda& b = a; a = b; }
  void del(Puda* p) { delete p; }
  keys setup(Puda& p, size_t n) { auto t = p.Setup(n); keys k; k.ek = std::get<0>(t); k.sk = std::get<1>(t); k.ak = std::get<2>(t); k.vk = std::get<3>(t); return k; }
  size_t nek(const keys& k) { return k.ek.size(); }
  size_t nsk(const keys& k) { return k.sk.size(); }
  const ek_t& ek(const keys& k, size_t i) { return k.ek[i]; }
  const tk_t& tk(const keys& k, size_t i) { return k.sk[i].tk; }
  mpz_class ska(const keys& k, size_t i) { return k.sk[i].a; }
  const sk_t& sk(const keys& k, size_t i) { return k.sk[i]; }
  const ak_t& ak(const keys& k) { return k.ak; }
  const P& vk1(const keys& k) { return k.vk.vk_1; }
  const P& vk2(const keys& k) { return k.vk.vk_2; }
  P enc(Puda& p, const ek_t& e, msg_t m, int t) { return p.Enc(e, m, t); }
  P tag(Puda& p, const sk_t& k, msg_t m, int t) { return p.Tag(k, m, t); }
  ctxt_v_t none() { return ctxt_v_t(); }
  void push(ctxt_v_t& v, const P& c) { v.push_back(c); }
  const P& at(const ctxt_v_t& v, size_t i) { return v[i]; }
  msg_t aggsum(Puda& p, const ak_t& a, const ctxt_v_t& c, const tag_v_t& g, int t) { return p.Agg(a, c, g, t).first; }
  P aggtag(Puda& p, const ak_t& a, const ctxt_v_t& c, const tag_v_t& g, int t) { return p.Agg(a, c, g, t).second; }
  bool verify(Puda& p, const keys& k, msg_t s, const P& g, int t) { return p.Verify(k.vk, s, g, t); }
}
