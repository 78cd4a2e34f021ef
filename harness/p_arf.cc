// C01: Arf expression templates; C02: Arf values.
#include <climits>
#include <cmath>
#include <limits>
#include <vector>

#include "arf_env.hpp"

namespace verif {

#ifdef WITH_SHAPES
// Shapes registered by the generated translation units.
std::vector<void (*)(ArfEnv&)>& arfShapes();

std::string ArfEnv::dump() const {
  std::ostringstream os;
  for (int j = 0; j < 5; j++) os << "v" << j << "=" << mv[j] << " ";
  os << "i=" << i[0] << "," << i[1] << " l=" << l[0] << "," << l[1] << " d=" << d[0] << "," << d[1];
  os << " p=" << p[0] << "," << p[1] << "," << p[2] << "," << p[3] << " r=";
  for (auto x : r) os << static_cast<int>(x) << ",";
  return os.str();
}
void ArfEnv::verifySelf(const char* text, const Arf* res, int dst) {
  CHECK(res == &v[dst], "assignment-result", text << " did not return its left operand; " << dump());
}
void ArfEnv::verify(const char* text, int dst, const Arf& got, const Dy& want) {
  CHECK(wellformed(got.arf_t()), "malformed-arf", text << " with " << dump());
  if (!undetermined) {
    Dy g = dy(got.arf_t());
    CHECK(g == want, "wrong-value", text << " evaluated to " << g << " but correctly rounded evaluation gives " << want << "; " << dump());
    tally("expressions compared with the exact model");
    if (!want.fin()) tally("of these infinite or NaN");
  } else {
    tally("expressions dividing by zero or infinity (value not judged)");
  }
  for (int j = 0; j < 5; j++)
    if (j != dst) {
      CHECK(dy(v[j].arf_t()) == mv[j], "operand-changed", text << " changed operand v" << j << " to " << dy(v[j].arf_t()) << "; " << dump());
    }
}

static void fill(ArfEnv& E, Rng& rng) {
  // Small numbers at small precisions produce many ties; wide exponent ranges
  // exercise alignment; special values exercise propagation.
  int mode = static_cast<int>(rng.below(8));
  const bool wide = rng.chance(1, 20);
  const long P = rng.chance(1, 2) ? rng.range(2, 80) : rng.of<long>({24, 53, 54, 63, 64, 65, 128, 200});
  for (int j = 0; j < 5; j++) {
    Dy x;
    switch (mode) {
      case 5:
      case 6: {
        // Sums, products, and quotients that are extremely close to a number
        // of precision P or to the middle of two such numbers.
        const long far = P + (rng.chance(1, 2) ? rng.range(1, 300) : rng.of<long>({1, 2, 29, 30, 31, 53, 64, 65}));
        x = Dy(rng.chance(1, 2) ? 1L : 2 * rng.range(0, 8) + 1, rng.chance(1, 2) ? 0L : rng.of<long>({-P - 1, -P, -P + 1, 3}));
        const long at = rng.of<long>({0, P, P - 1, P + 1, far, far});
        if (at) x = add(x, Dy(x.m * (rng.chance(1, 2) ? 1 : -1), x.e - at), EXACT, Rnd::NEAR);
        if (rng.chance(1, 3)) x = neg(x);
        break;
      }
      case 0: x = randDy(rng, 6, 10); break;
      case 1: x = randDy(rng, 60, 64); break;
      case 2: x = wide ? randDy(rng, 5000, 3000) : randDy(rng, 400, 300); break;
      case 3:
        x = randDy(rng, 40, 80);
        if (rng.chance(1, 2)) {
          mpz_class e = shl(mpz_class(1), rng.of<unsigned long>({20, 40, 61, 62, 63, 64, 70})) + rng.range(-3, 3);
          x = Dy(x.m, rng.chance(1, 2) ? e : mpz_class(-e));
        }
        break;
      case 4:
        x = rng.chance(1, 4) ? Dy::special(rng.of({Dy::PINF, Dy::NINF, Dy::NAN_})) : randDy(rng, 60, 64);
        break;
      default:
        // nearly cancelling operands
        x = j == 0 ? randDy(rng, 60, 100) : add(E.mv[0], Dy(rng.range(-4, 4), rng.range(-120, 60)), EXACT, Rnd::NEAR);
        if (rng.chance(1, 3)) x = neg(x);
    }
    E.mv[j] = x;
    // Sometimes provide larger storage than needed.
    if (rng.chance(1, 4)) setArf(E.v[j].arf_t(), randDy(rng, 10, 500));
    setArf(E.v[j].arf_t(), x);
  }
  for (int j = 0; j < 2; j++) {
    E.i[j] = rng.chance(1, 4) ? rng.of({INT_MIN, INT_MAX, 0, -1}) : static_cast<int>(rng.range(-50, 50));
    E.l[j] = rng.chance(1, 4) ? rng.of<long>({LONG_MIN, LONG_MAX, LONG_MIN + 1, 0, 1L << 62, -(1L << 62)}) : rng.range(-50, 50);
    E.d[j] = rng.chance(1, 4) ? rng.of({0.3, -0.1, 1e300, 5e-324, 0., -0., 1. / 3}) : std::ldexp(static_cast<double>(rng.range(-(1L << 53), 1L << 53)), static_cast<int>(rng.range(-60, 10)));
  }
  for (int j = 0; j < 4; j++) {
    E.p[j] = rng.chance(1, 3) ? rng.range(2, 12) : rng.chance(1, 3) ? rng.of<long>({2, 24, 53, 54, 63, 64, 65, 127, 128, 129, 192, 256}) : rng.range(2, 400);
    if (wide && rng.chance(1, 2)) E.p[j] = rng.range(400, 6000);
    if (mode == 5 || mode == 6) E.p[j] = P + (rng.chance(1, 4) ? rng.range(-1, 1) : 0);
    if (E.p[j] < 2) E.p[j] = 2;
    E.r[j] = rng.of({Arf::Round::NEAR, Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL});
  }
}

PROPERTY(C01) {
  auto& shapes = arfShapes();
  for (int rep = 0; rep < 40; rep++) {
    ArfEnv E;
    fill(E, rng);
    size_t k = rng.below(shapes.size());
    uint64_t h = hcomb(k, 77);
    for (auto& x : E.mv) h = hcomb(h, hashDy(x));
    for (auto x : E.p) h = hcomb(h, x);
    for (auto x : E.r) h = hcomb(h, static_cast<uint64_t>(x));
    if (index < 2 && rep == 0) sample("shape " + str(k) + " on " + E.dump());
    shapes[k](E);
    if (!E.undetermined) cover(h);
  }
  // exact evaluation (no division, moderate exponents)
  for (int rep = 0; rep < 10; rep++) {
    Dy a = randDy(rng, 300, 200), b = randDy(rng, 300, 200), c = randDy(rng, 300, 200);
    Arf x, y, z;
    setArf(x.arf_t(), a);
    setArf(y.arf_t(), b);
    setArf(z.arf_t(), c);
    auto r = rng.of({Arf::Round::NEAR, Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL});
    Arf w = (x * y - (z + x) * -y)(ARF_PREC_EXACT, r);
    Dy want = sub(mul(a, b, EXACT, Rnd::NEAR), mul(add(c, a, EXACT, Rnd::NEAR), neg(b), EXACT, Rnd::NEAR), EXACT, Rnd::NEAR);
    CHECK(dy(w.arf_t()) == want, "wrong-value", "exact x*y-(z+x)*-y for x=" << a << " y=" << b << " z=" << c << " gave " << dy(w.arf_t()));
    x += y(ARF_PREC_EXACT)(r);
    CHECK(dy(x.arf_t()) == add(a, b, EXACT, Rnd::NEAR), "wrong-value", "exact x += y for x=" << a << " y=" << b << " gave " << dy(x.arf_t()));
    tally("exact evaluations", 2);
  }
}
#else

// ------------------------------------------------------------------ C02
static Arf mk(const Dy& d) {
  Arf a;
  setArf(a.arf_t(), d);
  return a;
}
static bool sameDouble(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static void same(const char* what, const Arf& got, const Dy& want) {
  CHECK(wellformed(got.arf_t()), "malformed-arf", what);
  CHECK(dy(got.arf_t()) == want, "wrong-value", what << ": got " << dy(got.arf_t()) << " want " << want);
  tally("values compared");
}
static Dy any(Rng& rng) {
  switch (rng.below(6)) {
    case 0: return Dy(randInt(rng, 70), rng.range(-80, 20));
    case 1: return Dy(randInt(rng, 300), rng.range(-400, 400));
    case 2: {
      // close to, or halfway between, doubles of all magnitudes
      mpz_class m = shl(mpz_class(1), 52) + static_cast<unsigned long>(rng.below(1UL << 52));
      Dy x(m * 4 + rng.range(0, 4), rng.range(-1130, 1024) - 2);
      if (rng.chance(1, 3)) x = add(x, Dy(rng.of({1, -1}), x.e - rng.range(1, 90)), EXACT, Rnd::NEAR);
      return rng.chance(1, 2) ? x : neg(x);
    }
    case 3: {
      Dy x(randInt(rng, 12), rng.range(-1090, -1060));
      return x;
    }
    case 4: return Dy(rng.range(-3, 3), rng.range(-3, 3));
    default: {
      mpz_class e = shl(mpz_class(1), rng.of<unsigned long>({12, 30, 61, 62, 63, 64})) + rng.range(-2, 2);
      return Dy(randInt(rng, 64), rng.chance(1, 2) ? e : mpz_class(-e));
    }
  }
}

PROPERTY(C02) {
  for (int rep = 0; rep < 12; rep++) {
    Dy a = any(rng), b = rng.chance(1, 4) ? add(a, Dy(rng.range(-1, 1), a.e - (rng.chance(1, 2) ? 0 : 60)), EXACT, Rnd::NEAR) : any(rng);
    uint64_t h = hcomb(hashDy(a), hashDy(b));
    cover(h);
    if (index < 2 && rep == 0) sample("a=" + str(a) + " b=" + str(b));
    at("a=" + str(a) + " b=" + str(b));
    Arf x = mk(a), y = mk(b);

    // -- construction and assignment
    if (a.e.fits_slong_p()) same("Arf(mpz, exp)", Arf(a.m, a.e.get_si()), a);
    {
      mpz_class m = randInt(rng, 300);
      long e = rng.chance(1, 4) ? rng.of<long>({LONG_MAX, LONG_MIN, LONG_MIN + 1, 1L << 62, -(1L << 62), 1L << 61}) : rng.range(-500, 500);
      int base = static_cast<int>(rng.range(2, 36));
      same("Arf(mpz, exp)", Arf(m, e), Dy(m, e));
      same("Arf(string, base, exp)", Arf(m.get_str(base), base, e), Dy(m, e));
      long l = rng.chance(1, 2) ? static_cast<long>(rng.next()) : rng.of<long>({0, 1, -1, LONG_MAX, LONG_MIN, 1L << 62, -(1L << 62), (1L << 62) - 1, 1L << 32});
      int i = static_cast<int>(l);
      double d;
      uint64_t raw = rng.next();
      switch (rng.below(4)) {
        case 0: memcpy(&d, &raw, sizeof d); break;
        case 1: d = rng.of({0., -0., HUGE_VAL, -HUGE_VAL, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1}); break;
        case 2: d = nearest(a); break;
        default: d = std::ldexp(static_cast<double>(static_cast<int>(raw)), static_cast<int>(rng.range(-1074, 900)));
      }
      same("Arf(long)", Arf(l), Dy(l));
      same("Arf(int)", Arf(i), Dy(static_cast<long>(i)));
      same("Arf(double)", Arf(d), Dy::ofDouble(d));
      Arf t = mk(b);
      Arf& r1 = (t = l);
      CHECK(&r1 == &t, "assignment-result", "t = long");
      same("= long", t, Dy(l));
      t = i;
      same("= int", t, Dy(static_cast<long>(i)));
      t = d;
      same("= double", t, Dy::ofDouble(d));
      CHECK(sameDouble(static_cast<double>(t), d), "double-roundtrip", "Arf(" << d << ") converts back to " << static_cast<double>(t));
      t = y;
      same("= copy", t, b);
      same("copied from", y, b);
      Arf* alias = &t;
      t = *alias;
      same("= self", t, b);
      t = std::move(*alias);
      same("= move of self", t, b);
      Arf u(std::move(t));
      same("move constructed", u, b);
      t = x;
      same("assigned after being moved from", t, a);
      t = std::move(u);
      same("move assigned", t, b);
      u = 17;
      same("moved from, then assigned", u, Dy(17));
      swap(t, u);
      same("swap", t, Dy(17));
      same("swap", u, b);
      std::swap(t, u);
      same("std::swap", t, b);
      same("std::swap", u, Dy(17));
      Arf c(x);
      c <<= 1;
      same("copy is independent", x, a);
      // the reference to the underlying FLINT object is live
      arf_set_si(c.arf_t(), 23);
      same("arf_t", c, Dy(23));
      same("default", Arf(), Dy());
    }

    // -- conversions
    const double da = static_cast<double>(x), wa = nearest(a);
    CHECK(sameDouble(da, wa), "double", "conversion to double of " << a << " gave " << da << " want " << wa);
    CHECK(x.mantissa() == a.m && x.exponent() == a.e, "mantissa-exponent", a << " reported as " << x.mantissa() << "*2^" << x.exponent());
    tally("conversions", 2);
    if (!a.zero() && a.top().fits_slong_p() && abs(a.e) < (mpz_class(1) << 61)) {
      CHECK(x.logb() == a.top().get_si(), "logb", "logb of " << a << " is " << x.logb());
      tally("logb");
    }
    if (a.e < 10000) {
      at("floor/ceil " + str(a));
      CHECK(x.floor() == floorDy(a), "floor", "floor of " << a << " is " << x.floor());
      CHECK(x.ceil() == ceilDy(a), "ceil", "ceil of " << a << " is " << x.ceil());
      tally("floor/ceil", 2);
    }
    same("abs", x.abs(), a.sgn() < 0 ? neg(a) : a);
    same("negate", -x, neg(a));
    same("negate a constant", -std::as_const(x), neg(a));
    same("negate", std::as_const(x).operator-(), neg(a));
    same("unchanged", x, a);

    // -- shifts
    {
      long n = rng.chance(1, 3) ? rng.of<long>({0, 1, -1, 63, 64, -64, LONG_MAX, LONG_MIN, LONG_MIN + 1, 1L << 62, -(1L << 62)}) : rng.range(-300, 300);
      Dy up = a.zero() ? a : Dy(a.m, a.e + n), dn = a.zero() ? a : Dy(a.m, a.e - n);
      Arf t = x;
      Arf& r = (t <<= n);
      CHECK(&r == &t, "assignment-result", "<<=");
      same("<<=", t, up);
      t = x;
      t >>= n;
      same(">>=", t, dn);
      same("<<", x << n, up);
      same(">>", x >> n, dn);
      t <<= n;
      same(">> then <<", t, a);
    }

    // -- comparisons
    {
      const int c = cmpDy(a, b);
      const bool got[6] = {x < y, x <= y, x > y, x >= y, x == y, x != y};
      const bool want[6] = {c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0};
      for (int k = 0; k < 6; k++)
        CHECK(got[k] == want[k], "comparison", "operator #" << k << " of (<,<=,>,>=,==,!=) for " << a << " and " << b);
      long l = rng.chance(1, 2) ? (a.e >= 0 && a.top() < 62 && !a.zero() ? floorDy(a).get_si() + rng.range(-1, 1) : floorDy(Dy(rng.range(-5, 5))).get_si()) : rng.of<long>({LONG_MAX, LONG_MIN, 0, 1, -1, 1L << 62});
      const Arf& z = rng.chance(1, 2) ? x : y;
      const Dy& dz = &z == &x ? a : b;
      const int e = cmpDy(dz, Dy(l));
      const bool gl[12] = {z < l, z <= l, z > l, z >= l, z == l, z != l, l > z, l >= z, l < z, l <= z, l == z, l != z};
      const bool wl[6] = {e < 0, e <= 0, e > 0, e >= 0, e == 0, e != 0};
      for (int k = 0; k < 12; k++)
        CHECK(gl[k] == wl[k % 6], "comparison", "operator #" << k << " with long for " << dz << " and " << l);
      const Arf inf(rng.chance(1, 2) ? HUGE_VAL : -HUGE_VAL);
      const bool pos = inf > 0L;
      CHECK((x < inf) == pos && (x > inf) == !pos && (x == inf) == false && (inf == inf), "comparison", "of " << a << " with " << inf);
      tally("comparisons", 22);
      if (c == 0) {
        CHECK(std::hash<Arf>()(x) == std::hash<Arf>()(y), "hash", "equal values " << a << " with different hashes");
        tally("hashes of equal values");
      }
      // an equal value obtained differently
      Arf w = x;
      long n = rng.range(1, 100);
      w <<= n;
      w >>= n;
      CHECK(w == x && std::hash<Arf>()(w) == std::hash<Arf>()(x), "hash", "value " << a << " shifted forth and back");
      Arf zero = (x - x)(64, Arf::Round::FLOOR);
      CHECK(zero == Arf() && std::hash<Arf>()(zero) == std::hash<Arf>()(Arf(-0.)) && zero == Arf(-0.), "hash", "zeros");
    }

    // -- printing
    if (abs(a.e) < 100000) {
      std::string s = str(x), w;
      if (a.zero()) w = "0";
      else if (a.e >= 0) w = str(wa);
      else w = str(wa) + "=" + a.m.get_str() + "p" + a.e.get_str();
      CHECK(s == w, "print", "of " << a << " is " << s << " want " << w);
      tally("printed");
    }
    for (double d : {0., -0., HUGE_VAL, -HUGE_VAL, std::nan("")}) {
      const Arf special(d);
      same("negate a special value", -special, neg(Dy::ofDouble(d)));
      same("absolute value of a special value", special.abs(), Dy::ofDouble(std::fabs(d)));
    }
    CHECK(str(Arf(HUGE_VAL)) == "+∞" && str(Arf(-HUGE_VAL)) == "-∞" && str(Arf(std::nan(""))) == "NaN", "print", "special values");
  }
  {
    flint_rand_t st;
    flint_randinit(st);
    for (int k = 0; k < 5; k++) {
      long p = rng.range(2, 300);
      Arf r = Arf::randtest(st, p, 10);
      CHECK(wellformed(r.arf_t()) && static_cast<long>(bits(r.mantissa())) <= p, "randtest", "precision " << p << " but " << dy(r.arf_t()));
    }
    flint_randclear(st);
  }
}
#endif

}  // namespace verif
