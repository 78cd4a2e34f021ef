// Real numbers of all kinds together with what is known about their value.
#ifndef VERIF_REALS_HPP
#define VERIF_REALS_HPP
#include <exact-real/arb.hpp>
#include <exact-real/arf.hpp>
#include <exact-real/real_number.hpp>
#include <exact-real/seed.hpp>
#include <memory>

#include "arb_glue.hpp"
#include "model.hpp"

namespace verif {
using exactreal::Arb;
using exactreal::Arf;
using exactreal::RealNumber;
using exactreal::Seed;
using RealPtr = std::shared_ptr<const RealNumber>;

inline Arf mkArf(const Dy& d) {
  Arf a;
  setArf(a.arf_t(), d);
  return a;
}

// A real number that is not a product.
struct Base {
  RealPtr x;
  std::string desc;
  std::optional<mpq_class> q;      // if rational
  std::optional<IV> range;         // where a random number was asked to be
  std::optional<double> close;     // the double it was asked to be close to
  std::function<RealPtr()> remake;  // creates the number again; empty if it cannot
  // Enclosure of relative width about 2^-prec
  IV at(long prec) const {
    if (q) return IV(*q);
    Dy a = dy(x->arf(prec + 2).arf_t());
    if (!a.fin() || a.zero()) fail("bad-approximation", "the approximation of " + desc + " with precision " + str(prec + 2) + " is " + str(a));
    mpq_class m = a.q(), e = pow2(Dy(a).top().get_si() - prec);
    return {mpq_class(m - e), mpq_class(m + e)};
  }
};

inline unsigned freshSeed(Rng& rng) { return static_cast<unsigned>(rng.next() >> 32) | 0x10000u; }

// The midpoint of two doubles (or a double, if it is too small.)
inline Dy nearMidpoint(Rng& rng) {
  mpz_class m = (shl(mpz_class(1), 52) + static_cast<unsigned long>(rng.below(1UL << 52))) * 2 + 1;
  if (rng.chance(1, 2)) m = -m;
  return Dy(m, rng.chance(1, 4) ? rng.range(-1080, -1070) : rng.range(-1000, 900));
}

inline Base randomBase(Rng& rng, bool rationals = true) {
  Base b;
  std::ostringstream os;
  unsigned seed = freshSeed(rng);
  switch (rng.below(rationals ? 8 : 6)) {
    case 0:
      b.remake = [=] { return RealNumber::random(Seed(seed)); };
      b.range = IV(0, 1);
      os << "random(Seed(" << seed << "))";
      break;
    case 1:
      if (rng.chance(1, 2)) {
        b.x = RealNumber::random();
        b.range = IV(0, 1);
        os << "random()";
        break;
      }
      [[fallthrough]];
    case 2:
    case 3: {
      // an interval
      Dy lo, hi;
      switch (rng.below(9)) {
        case 0: lo = Dy(rng.range(-5, 5)), hi = add(lo, Dy(rng.range(1, 5)), EXACT, Rnd::NEAR); break;
        case 1: lo = randDy(rng, 60, 60), hi = add(lo, Dy(1, rng.range(-200, 20)), EXACT, Rnd::NEAR); break;
        case 2: lo = neg(Dy(1, rng.range(-80, 80))), hi = Dy(1, rng.range(-80, 80)); break;  // around zero
        case 3: lo = Dy(), hi = Dy(1 + rng.below(9), rng.range(-100, 100)); break;
        case 4: hi = Dy(), lo = Dy(-1 - static_cast<long>(rng.below(9)), rng.range(-100, 100)); break;
        case 5:
        case 6: {
          // a narrow interval next to (or around) the middle of two doubles
          lo = nearMidpoint(rng);
          if (rng.chance(1, 4)) lo = Dy(rng.range(-9, 9), rng.range(-3, 3));
          Dy width(1, (lo.zero() ? mpz_class(0) : lo.top()) - (rng.chance(1, 6) ? rng.range(54, 2500) : rng.range(54, 500)));
          hi = lo;
          int side = static_cast<int>(rng.below(3));
          if (side < 2) hi = add(lo, width, EXACT, Rnd::NEAR);
          if (side > 0) lo = add(lo, neg(width), EXACT, Rnd::NEAR);
          break;
        }
        case 7: lo = Dy(1, rng.range(-1000, 1000)), hi = add(lo, Dy(1, lo.e - static_cast<long>(rng.below(200))), EXACT, Rnd::NEAR); break;
        default:
          lo = randDy(rng, 200, 200);
          do hi = randDy(rng, 200, 200);
          while (hi == lo);
          if (cmpDy(lo, hi) > 0) std::swap(lo, hi);
      }
      if (lo.zero() && hi == Dy(1)) hi = Dy(2);
      Arf l = mkArf(lo), h = mkArf(hi);
      b.range = IV(lo.q(), hi.q());
      b.remake = [=] { return RealNumber::random(l, h, Seed(seed)); };
      os << "random(" << lo << ", " << hi << ", Seed(" << seed << "))";
      break;
    }
    case 4:
    case 5: {
      double d;
      switch (rng.below(6)) {
        case 0: d = static_cast<double>(rng.range(-10, 10)) / 8; break;
        case 1: d = std::ldexp(static_cast<double>(static_cast<long>(rng.next())), static_cast<int>(rng.range(-100, 100))); break;
        case 2: d = std::ldexp(1., static_cast<int>(rng.range(-1074, 1023))); break;
        case 3: d = rng.of({1., -1., 0., -0., 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1e-310}); break;
        default: {
          uint64_t raw = rng.next();
          memcpy(&d, &raw, sizeof d);
          if (!std::isfinite(d)) d = 0.3;
        }
      }
      b.close = d;
      b.remake = [=] { return RealNumber::random(d, Seed(seed)); };
      os << "random(" << Dy::ofDouble(d) << " as double, Seed(" << seed << "))";
      break;
    }
    default: {
      mpq_class v;
      switch (rng.below(5)) {
        case 0: v = rng.range(-3, 3); break;
        case 1: v = mpq_class(rng.range(-20, 20), rng.range(1, 12)); break;
        case 2: v = Dy(randInt(rng, 60), rng.range(-300, 300)).q(); break;
        case 3: v = randQ(rng, 400); break;
        default: {
          // close to the midpoint of two doubles
          v = nearMidpoint(rng).q();
          if (rng.chance(2, 3)) v += v * mpq_class(rng.of({1, -1}), 3) * pow2(-(rng.chance(1, 8) ? rng.range(54, 2500) : rng.range(54, 400)));
        }
      }
      v.canonicalize();
      b.q = v;
      b.remake = [=] { return RealNumber::rational(v); };
      os << "rational(" << v << ")";
    }
  }
  if (!b.x) b.x = b.remake();
  b.desc = os.str();
  return b;
}

// Numbers of the same kind that live only briefly, so that one takes the place of another in memory.
template <typename F>
void transients(Rng& rng, F&& use) {
  const int kind = static_cast<int>(rng.below(4));
  const long n = rng.range(2, 5);
  const void* last = nullptr;
  for (long i = 0; i < n; i++) {
    const unsigned seed = freshSeed(rng);
    Base b;
    switch (kind) {
      case 0:
        b.x = RealNumber::random(Seed(seed));
        b.desc = "random(Seed(" + str(seed) + "))";
        break;
      case 1: {
        const long lo = rng.range(-9, 9);
        b.x = RealNumber::random(Arf(lo), Arf(lo + 1 + rng.range(1, 3)), Seed(seed));
        b.desc = "random in an interval at " + str(lo) + " with seed " + str(seed);
        break;
      }
      case 2:
        b.x = RealNumber::random(0.125 + static_cast<double>(rng.range(-40, 40)), Seed(seed));
        b.desc = "random close to a double with seed " + str(seed);
        break;
      default:
        b.q = mpq_class(2 * rng.range(-20, 20) + 1, 2 * rng.range(1, 12));
        b.q->canonicalize();
        b.x = RealNumber::rational(*b.q);
        b.desc = "rational(" + b.q->get_str() + ")";
    }
    if (b.x.get() == last) tally("numbers in the place of another one");
    last = b.x.get();
    use(b);
  }
}

// A product of powers of real numbers (or a single real.)
struct Real {
  RealPtr x;
  std::vector<std::pair<const Base*, int>> factors;
  std::string desc() const {
    std::string r;
    for (auto& f : factors) r += (r.empty() ? "" : " * ") + f.first->desc + (f.second == 1 ? "" : "^" + str(f.second));
    return r.empty() ? "1" : r;
  }
  bool rational() const {
    for (auto& f : factors)
      if (!f.first->q) return false;
    return true;
  }
  IV at(long prec) const {
    if (factors.size() == 1 && factors[0].second == 1) return factors[0].first->at(prec);
    IV r(mpq_class(1));
    for (auto& f : factors) {
      IV y = f.first->at(prec + 12);
      for (int i = 0; i < f.second; i++) r = outward(r * y, prec + 14);
    }
    return r;
  }
};

// A product of some of the (irrational) bases, multiplied in random order; or one of them.
inline Real randomProduct(const std::vector<const Base*>& bases, Rng& rng, int degree) {
  Real r;
  std::vector<const Base*> list;
  for (int i = 0; i < degree; i++) list.push_back(bases[rng.below(bases.size())]);
  for (auto* b : bases) {
    int n = static_cast<int>(std::count(list.begin(), list.end(), b));
    if (n) r.factors.push_back({b, n});
  }
  std::vector<RealPtr> parts;
  for (auto* b : list) parts.push_back(b->x);
  while (parts.size() > 1) {
    size_t i = rng.below(parts.size());
    std::swap(parts[i], parts.back());
    RealPtr p = parts.back();
    parts.pop_back();
    i = rng.below(parts.size());
    parts[i] = *parts[i] * *p;
  }
  r.x = parts[0];
  return r;
}
}  // namespace verif
#endif
