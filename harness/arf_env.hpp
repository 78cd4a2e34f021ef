#ifndef VERIF_ARF_ENV_HPP
#define VERIF_ARF_ENV_HPP
#include <exact-real/arf.hpp>
#include <exact-real/yap/arf.hpp>
#include <utility>

#include "model.hpp"

namespace verif {
using exactreal::Arf;

inline Rnd rnd(Arf::Round r) {
  switch (r) {
    case Arf::Round::NEAR: return Rnd::NEAR;
    case Arf::Round::DOWN: return Rnd::DOWN;
    case Arf::Round::UP: return Rnd::UP;
    case Arf::Round::FLOOR: return Rnd::FLOOR;
    default: return Rnd::CEIL;
  }
}

struct ArfEnv {
  Arf v[5];
  Dy mv[5];
  int i[2];
  long l[2];
  double d[2];
  long p[4];
  Arf::Round r[4];
  bool undetermined = false;

  Dy mi(int j) const { return Dy(static_cast<long>(i[j])); }
  Dy ml(int j) const { return Dy(l[j]); }
  Dy md(int j) const { return Dy::ofDouble(d[j]); }

  std::string dump() const;
  void verifySelf(const char* text, const Arf* res, int dst);
  void verify(const char* text, int dst, const Arf& got, const Dy& want);
};
inline Dy mneg(const Dy& a) { return neg(a); }
inline Dy madd(ArfEnv&, const Dy& a, const Dy& b, long p, Arf::Round r) { return add(a, b, p, rnd(r)); }
inline Dy msub(ArfEnv&, const Dy& a, const Dy& b, long p, Arf::Round r) { return sub(a, b, p, rnd(r)); }
inline Dy mmul(ArfEnv&, const Dy& a, const Dy& b, long p, Arf::Round r) { return mul(a, b, p, rnd(r)); }
inline Dy mdiv(ArfEnv& E, const Dy& a, const Dy& b, long p, Arf::Round r) {
  if (!a.fin() || !b.fin() || b.zero()) {
    // What a division by zero returns is up to FLINT.
    E.undetermined = true;
    return Dy::special(Dy::NAN_);
  }
  return div(a, b, p, rnd(r));
}
}  // namespace verif
#endif
