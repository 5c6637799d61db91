// Uses of the checksum functions.
#include "crc.hpp"
#include "utilities.hpp"
namespace w_crc {
  uint32_t calc(uint32_t crc, const unsigned char* b, unsigned int len) { return calculate_crc32c(crc, b, len); }
  uint32_t single(uint32_t crc, const void* b, size_t len) { return singletable_crc32c(crc, b, len); }
  uint32_t multi(uint32_t crc, const unsigned char* b, unsigned int len) { return multitable_crc32c(crc, b, len); }
  mpz_class append(const mpz_class& n) { return appendCRC(n); }
  bool validate(const mpz_class& n) { return validateCRC(n); }
  mpz_class remove(const mpz_class& n) { return removeCRC(n); }
  size_t getraw(uint8_t** a, const mpz_class& n) { return utils::getRawMpz(a, n); }
  size_t getrawn(uint8_t** a, const mpz_class& n, size_t s) { return utils::getRawMpz(a, n, s); }
  mpz_class setraw(uint8_t* a, size_t n) { return utils::setRawMpz(a, n); }
}
