// Stand-in for the (empty) submodule external/gmpxxll: an mpz_class that can
// be constructed from (unsigned) long long.
#ifndef VERIF_GMPXXLL_HPP
#define VERIF_GMPXXLL_HPP
#include <gmpxx.h>

namespace gmpxxll {
class mpz_class : public ::mpz_class {
 public:
  using ::mpz_class::mpz_class;
  mpz_class() : ::mpz_class() {}
  mpz_class(long long value) : ::mpz_class() { assign(value < 0, value < 0 ? 0ull - static_cast<unsigned long long>(value) : static_cast<unsigned long long>(value)); }
  mpz_class(unsigned long long value) : ::mpz_class() { assign(false, value); }

 private:
  void assign(bool negative, unsigned long long magnitude) {
    mpz_import(this->get_mpz_t(), 1, -1, sizeof(magnitude), 0, 0, &magnitude);
    if (negative) mpz_neg(this->get_mpz_t(), this->get_mpz_t());
  }
};
}  // namespace gmpxxll
#endif
