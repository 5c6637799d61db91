// Uses of the symmetric encryption.
#include <string>
#include <sys/param.h>
#include "aes.hpp"
#include "utilities.hpp"
#include "crc.hpp"
namespace w_aes {
  using aes::AES;
  mpz_class enc(const mpz_class& k, const mpz_class& m) { AES a; return a.encrypt(k, m); }
  mpz_class dec(const mpz_class& k, const mpz_class& c) { AES a; return a.decrypt(k, c); }
  mpz_class encC(const mpz_class& k, const mpz_class& m) { AES a; return a.encryptCRC(k, m); }
  mpz_class decC(const mpz_class& k, const mpz_class& c) { AES a; return a.decryptCRC(k, c); }
  void init() { AES::init(); }
  void initn(const char* p, size_t n) { AES::init(std::string(p, n)); }
  bool validate(const mpz_class& n) { return validateCRC(n); }
  mpz_class remove(const mpz_class& n) { return removeCRC(n); }
  // one object used again
  mpz_class again(const mpz_class& k, const mpz_class& m, const mpz_class& k2, const mpz_class& m2) { AES a; mpz_class x = a.encrypt(k, m); mpz_class y = a.decrypt(k, x); mpz_class z = a.encrypt(k2, m2); return a.decrypt(k2, z); }
}
