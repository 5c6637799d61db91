// Every function template of the public headers, for every curve and field.
#include <iostream>
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"
namespace w_units {
  void show(std::ostream& o, const field::Field_secp256r1_p& a, const field::Field_secp256r1_n& b, const field::Field_bn254_p& c, const field::Field_bn254_n& d) { o << a << b << c << d; }
  void show(std::ostream& o, const ecc::Point_secp256r1& a, const ecc::Point_bn254& b) { o << a << b; }
  void show(std::ostream& o, const ecc::Curve_secp256r1& a, const ecc::Curve_bn254& b) { o << a << b; }
  bool same(const ecc::Curve_secp256r1& a, const ecc::Curve_secp256r1& b) { return a == b; }
  bool same(const ecc::Curve_bn254& a, const ecc::Curve_bn254& b) { return a == b; }
}
