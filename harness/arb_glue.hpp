#ifndef VERIF_ARB_GLUE_HPP
#define VERIF_ARB_GLUE_HPP
#include "model.hpp"
namespace verif {
struct Ball0 {
  ::arb_t b;
  explicit Ball0(const ::arb_t x) {
    arb_init(b);
    arb_set(b, x);
  }
  Ball0(const Ball0&) = delete;
  ~Ball0() { arb_clear(b); }
};
inline std::string show(const ::arb_t x) { return "(" + str(mid(x)) + " +/- " + str(rad(x)) + ")"; }

// Does the ball contain this number?
inline bool contains(const ::arb_t x, const mpq_class& q) {
  if (mag_is_inf(arb_radref(x))) return true;
  if (arf_is_nan(arb_midref(x))) return true;
  auto i = iv(x);
  if (i) return i->contains(q);
  // infinite midpoint with finite radius
  if (!arf_is_finite(arb_midref(x))) return false;
  throw std::logic_error("model: ball with extreme exponents");
}
// Set to midpoint and radius; radii have at most 30 bits.
inline void setBall(::arb_t x, const Dy& m, const Dy& r) {
  setArf(arb_midref(x), m);
  if (r.k == Dy::PINF) {
    mag_inf(arb_radref(x));
    return;
  }
  ::arf_t t;
  arf_init(t);
  setArf(t, r);
  arf_get_mag(arb_radref(x), t);
  arf_clear(t);
}
}  // namespace verif
#endif
