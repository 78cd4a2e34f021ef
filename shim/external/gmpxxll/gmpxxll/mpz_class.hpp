// Stand-in for flatsurf/gmpxxll (an empty git submodule): an mpz_class that can
// be constructed from (unsigned) long long.
#ifndef VERIF_SHIM_GMPXXLL
#define VERIF_SHIM_GMPXXLL
#include <gmpxx.h>
namespace gmpxxll {
class mpz_class : public ::mpz_class {
 public:
  using ::mpz_class::mpz_class;
  mpz_class() {}
  mpz_class(const ::mpz_class &o) : ::mpz_class(o) {}
  mpz_class(long long v) {
    const bool neg = v < 0;
    unsigned long long u = neg ? 0ull - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
    mpz_import(get_mpz_t(), 1, 1, sizeof(u), 0, 0, &u);
    if (neg) mpz_neg(get_mpz_t(), get_mpz_t());
  }
  mpz_class(unsigned long long u) { mpz_import(get_mpz_t(), 1, 1, sizeof(u), 0, 0, &u); }
};
}  // namespace gmpxxll
#endif
