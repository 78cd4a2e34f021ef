#ifndef VERIF_ARB_ENV_HPP
#define VERIF_ARB_ENV_HPP
#include <exact-real/arb.hpp>
#include <exact-real/yap/arb.hpp>
#include <array>
#include <optional>
#include <utility>

#include "arb_glue.hpp"
#include "model.hpp"

namespace verif {
using exactreal::Arb;
using exactreal::Arf;

// Memory management for an arb_t, independent of the code under test.
struct Ball {
  ::arb_t b;
  Ball() { arb_init(b); }
  Ball(const Ball& o) {
    arb_init(b);
    arb_set(b, o.b);
  }
  Ball& operator=(const Ball& o) {
    arb_set(b, o.b);
    return *this;
  }
  ~Ball() { arb_clear(b); }
};
constexpr int POINTS = 6;

// What is known about the value of a subexpression: its value at several
// choices of points in the operands (exactly), and the ball obtained from
// FLINT operation by operation.
struct MArb {
  std::array<std::optional<mpq_class>, POINTS> pts;
  Ball ref;
};

struct ArbEnv {
  Arb v[5];
  MArb mv[5];
  int i[2];
  long l[2];
  unsigned long u[2];
  double d[2];
  Arf a[2];
  long p[4];
  int r[4] = {0, 0, 0, 0};

  template <typename T>
  static MArb exact(const T& x) {
    mpq_class q;
    if constexpr (std::is_same_v<T, Arf>) q = dy(x.arf_t()).q();
    else if constexpr (std::is_same_v<T, double>) q = Dy::ofDouble(x).q();
    else q = mpz_class(x);
    MArb r;
    for (auto& y : r.pts) y = q;
    // All these are dyadic.
    Dy m(q.get_num(), -static_cast<long>(bits(q.get_den()) - 1));
    setArf(arb_midref(r.ref.b), m);
    return r;
  }
  MArb mi(int j) const { return exact(i[j]); }
  MArb ml(int j) const { return exact(l[j]); }
  MArb mu(int j) const { return exact(u[j]); }
  MArb md(int j) const { return exact(d[j]); }
  MArb ma(int j) const { return exact(a[j]); }

  std::string dump() const;
  void verifySelf(const char* text, const Arb* res, int dst);
  void verify(const char* text, int dst, const Arb& got, const MArb& want);
};
template <typename F, typename G>
MArb pointwise(const MArb& a, const MArb& b, F&& f, G&& g) {
  MArb r;
  for (int k = 0; k < POINTS; k++)
    if (a.pts[k] && b.pts[k]) r.pts[k] = f(*a.pts[k], *b.pts[k]);
  g(r.ref.b, a.ref.b, b.ref.b);
  return r;
}
using OptQ = std::optional<mpq_class>;
inline MArb mneg(const MArb& a) {
  return pointwise(a, a, [](auto& x, auto&) { return OptQ(-x); }, [](auto r, auto x, auto) { arb_neg(r, x); });
}
inline MArb madd(ArbEnv&, const MArb& a, const MArb& b, long p) {
  return pointwise(a, b, [](auto& x, auto& y) { return OptQ(x + y); }, [&](auto r, auto x, auto y) { arb_add(r, x, y, p); });
}
inline MArb msub(ArbEnv&, const MArb& a, const MArb& b, long p) {
  return pointwise(a, b, [](auto& x, auto& y) { return OptQ(x - y); }, [&](auto r, auto x, auto y) { arb_sub(r, x, y, p); });
}
inline MArb mmul(ArbEnv&, const MArb& a, const MArb& b, long p) {
  return pointwise(a, b, [](auto& x, auto& y) { return OptQ(x * y); }, [&](auto r, auto x, auto y) { arb_mul(r, x, y, p); });
}
inline MArb mdiv(ArbEnv&, const MArb& a, const MArb& b, long p) {
  return pointwise(a, b, [](auto& x, auto& y) { return y == 0 ? OptQ() : OptQ(x / y); }, [&](auto r, auto x, auto y) { arb_div(r, x, y, p); });
}
}  // namespace verif
#endif
