// Uses of the secret sharing class' public interface.
#include "shamirss.hpp"
using namespace sss;
namespace w_sss {
  typedef FIELD S;
  S szero() { return S(); }
  S sone() { return S(1); }
  ShamirSS* mk() { return new ShamirSS(); }
  ShamirSS* copy(const ShamirSS& s) { return new ShamirSS(s); }
  void del(ShamirSS* s) { delete s; }
  share_v_t shares(ShamirSS& s, size_t t, size_t n, const S& x) { return s.getShares(t, n, x); }
  S recon(ShamirSS& s, const share_v_t& v) { return s.reconSecret(v); }
  share_v_t none() { return share_v_t(); }
  share_t mkshare(const S& i, const S& v) { return share_t(i, v); }
  void push(share_v_t& v, const share_t& s) { v.push_back(s); }
  size_t size(const share_v_t& v) { return v.size(); }
  const share_t& at(const share_v_t& v, size_t i) { return v[i]; }
  const S& idx(const share_t& s) { return s.idx; }
  const S& value(const share_t& s) { return s.val; }
  mpz_class order(const S& s) { return s.getField(); }
}
