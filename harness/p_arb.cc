// C03: Arb expression templates and conversions enclose; C04: Arb comparisons.
#include <climits>
#include <cmath>
#include <iomanip>
#include <limits>
#include <vector>

#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>

#include "arb_env.hpp"
#include "nf.hpp"

namespace verif {

static Dy randRad(Rng& rng, const Dy& m) {
  switch (rng.below(6)) {
    case 0:
    case 1: return Dy();
    case 2: return Dy(static_cast<long>(rng.below(1 << 20)), rng.range(-40, 10));
    case 3: return m.fin() && !m.zero() ? Dy(1, m.top() - rng.range(-2, 80)) : Dy(1, 0);
    case 4: return m.fin() ? roundTo(abs(m.m), m.e, 30, Rnd::UP) : Dy();  // touches zero
    default: return Dy(static_cast<long>((1L << 29) + rng.below(1L << 29)), rng.range(-200, 50));
  }
}

#ifdef WITH_SHAPES
std::vector<void (*)(ArbEnv&)>& arbShapes();

std::string ArbEnv::dump() const {
  std::ostringstream os;
  for (int j = 0; j < 5; j++) os << "v" << j << "=" << show(mv[j].ref.b) << " ";
  os << "i=" << i[0] << "," << i[1] << " l=" << l[0] << "," << l[1] << " u=" << u[0] << "," << u[1] << " d=" << Dy::ofDouble(d[0]) << "," << Dy::ofDouble(d[1]) << " a=" << dy(a[0].arf_t()) << "," << dy(a[1].arf_t());
  os << " p=" << p[0] << "," << p[1] << "," << p[2] << "," << p[3];
  return os.str();
}
void ArbEnv::verifySelf(const char* text, const Arb* res, int dst) {
  CHECK(res == &v[dst], "assignment-result", text << " did not return its left operand; " << dump());
}
void ArbEnv::verify(const char* text, int dst, const Arb& got, const MArb& want) {
  CHECK(wellformed(arb_midref(got.arb_t())), "malformed-arb", text << " with " << dump());
  const auto& g = got.arb_t();
  const auto& ref = want.ref.b;
  bool moderate = !arf_is_finite(arb_midref(g)) || mag_is_inf(arb_radref(g)) || iv(g).has_value();
  for (auto& x : want.pts)
    if (x && moderate) {
      CHECK(contains(g, *x), "not-contained", text << " evaluated to " << show(g) << " which does not contain the value " << *x << " that the expression takes for numbers in its operands; " << dump());
      tally("values that must be contained");
    }
  if (arb_is_finite(ref)) {
    CHECK(arb_is_finite(g), "too-wide", text << " evaluated to a ball that is not finite: " << show(g) << " instead of " << show(ref) << "; " << dump());
    CHECK(arb_overlaps(g, ref), "not-overlapping", text << " evaluated to " << show(g) << " which does not meet the enclosure " << show(ref) << "; " << dump());
    // At most a small factor wider than evaluation operation by operation.
    mag_t bound, t;
    mag_init(bound);
    mag_init(t);
    mag_mul_2exp_si(bound, arb_radref(ref), 2);
    arf_get_mag(t, arb_midref(ref));
    mag_mul_2exp_si(t, t, 3 - p[0]);
    if (!mag_is_zero(arb_radref(ref))) mag_add(bound, bound, t);
    CHECK(mag_cmp(arb_radref(g), bound) <= 0, "too-wide", text << " evaluated to " << show(g) << " but evaluation operation by operation gives " << show(ref) << "; " << dump());
    mag_clear(bound);
    mag_clear(t);
    tally("finite balls compared with operation by operation evaluation");
  } else {
    tally("expressions whose enclosure is unbounded");
  }
  for (int j = 0; j < 5; j++)
    if (j != dst) CHECK(arb_equal(v[j].arb_t(), mv[j].ref.b), "operand-changed", text << " changed operand v" << j << " to " << show(v[j].arb_t()) << "; " << dump());
}

static void fill(ArbEnv& E, Rng& rng) {
  int mode = static_cast<int>(rng.below(6));
  const bool wide = rng.chance(1, 20);
  for (int j = 0; j < 5; j++) {
    Dy m, r;
    bool pts = true;
    switch (mode) {
      case 0: m = randDy(rng, 6, 10); break;
      case 1: m = randDy(rng, 60, 64); break;
      case 2: m = wide ? randDy(rng, 4000, 3000) : randDy(rng, 300, 300); break;
      case 3:
        m = randDy(rng, 40, 80);
        if (rng.chance(1, 4)) {
          mpz_class e = shl(mpz_class(1), rng.of<unsigned long>({40, 61, 62, 63, 64, 70})) + rng.range(-3, 3);
          m = Dy(m.m, rng.chance(1, 2) ? e : mpz_class(-e));
          pts = false;
        }
        break;
      case 4:
        m = rng.chance(1, 5) ? Dy::special(rng.of({Dy::PINF, Dy::NINF, Dy::NAN_})) : randDy(rng, 60, 64);
        if (!m.fin()) pts = false;
        break;
      default:
        m = j == 0 ? randDy(rng, 60, 100) : add(mid(E.mv[0].ref.b), Dy(rng.range(-4, 4), rng.range(-120, 60)), EXACT, Rnd::NEAR);
    }
    r = randRad(rng, m);
    if (mode == 4 && rng.chance(1, 8)) r = Dy::special(Dy::PINF), pts = false;
    if (rng.chance(1, 4)) setBall(E.v[j].arb_t(), randDy(rng, 10, 500), Dy());
    setBall(E.v[j].arb_t(), m, r);
    arb_set(E.mv[j].ref.b, E.v[j].arb_t());
    if (pts) {
      auto i = iv(E.v[j].arb_t());
      if (i)
        for (int k = 0; k < POINTS; k++) {
          mpq_class t;
          switch (rng.below(4)) {
            case 0: t = i->lo; break;
            case 1: t = i->hi; break;
            case 2: t = (i->lo + i->hi) / 2; break;
            default: t = i->lo + (i->hi - i->lo) * mpq_class(static_cast<unsigned long>(rng.below(1025)), 1024UL); t.canonicalize();
          }
          E.mv[j].pts[k] = t;
        }
    }
  }
  for (int j = 0; j < 2; j++) {
    E.i[j] = rng.chance(1, 4) ? rng.of({INT_MIN, INT_MAX, 0, -1}) : static_cast<int>(rng.range(-50, 50));
    E.l[j] = rng.chance(1, 4) ? rng.of<long>({LONG_MIN, LONG_MAX, LONG_MIN + 1, 0, 1L << 62, -(1L << 62)}) : rng.range(-50, 50);
    E.u[j] = rng.chance(1, 3) ? rng.of<unsigned long>({ULONG_MAX, 1UL << 63, (1UL << 63) + 1, 1UL << 62}) : rng.below(50);
    E.d[j] = rng.chance(1, 4) ? rng.of({0.3, -0.1, 1e300, 5e-324, 0., -0., 1. / 3}) : std::ldexp(static_cast<double>(rng.range(-(1L << 53), 1L << 53)), static_cast<int>(rng.range(-60, 10)));
    setArf(E.a[j].arf_t(), randDy(rng, 60, 100));
  }
  for (auto& p : E.p) p = rng.chance(1, 3) ? rng.range(2, 12) : rng.chance(1, 3) ? rng.of<long>({2, 24, 30, 31, 53, 63, 64, 65, 128, 129, 256}) : wide ? rng.range(300, 5000) : rng.range(2, 300);
}

PROPERTY(C03) {
  auto& shapes = arbShapes();
  for (int rep = 0; rep < 20; rep++) {
    ArbEnv E;
    fill(E, rng);
    size_t k = rng.below(shapes.size());
    uint64_t h = hcomb(k, hstr(E.dump()));
    if (index < 2 && rep == 0) sample("shape " + str(k) + " on " + E.dump());
    shapes[k](E);
    cover(h);
  }
}
#else

static IV ivof(const Arb& x) {
  auto r = iv(x.arb_t());
  CHECK(r, "not-finite", "expected a finite ball but got " << show(x.arb_t()));
  return *r;
}
// A random finite ball of moderate exponents.
static void randBall(Arb& b, Rng& rng) {
  Dy m = rng.chance(1, 2) ? randDy(rng, 60, 80) : randDy(rng, 8, 10);
  setBall(b.arb_t(), m, randRad(rng, m));
}

template <typename T>
static void integers(Rng& rng) {
  T x;
  if (rng.chance(1, 2)) x = rng.of<T>({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0), T(1), T(-1), T(std::numeric_limits<T>::max() / 2 + 1)});
  else x = static_cast<T>(rng.next() >> rng.below(64));
  mpz_class z;
  if (std::is_signed_v<T>) z = static_cast<long>(x);
  else z = static_cast<unsigned long>(x);
  Arb a(x), b;
  CHECK(ivof(a).exact() && ivof(a).lo == z, "integer", "Arb(" << z << ") is " << show(a.arb_t()));
  randBall(b, rng);
  Arb& r = (b = x);
  CHECK(&r == &b && ivof(b).exact() && ivof(b).lo == z, "integer", "Arb = " << z << " is " << show(b.arb_t()));
  tally("exact conversions", 2);
}

// The conversions part of C03.
PROPERTY(C03b) {
  for (int rep = 0; rep < 6; rep++) {
    mpq_class q = randQ(rng, rng.chance(1, 60) ? 8000 : 150);
    long prec = rng.chance(1, 100) ? rng.range(600, 9000) : rng.chance(1, 2) ? rng.range(2, 80) : rng.range(2, 600);
    peak("precision", static_cast<double>(prec));
    cover(hcomb(hashQ(q), prec));
    at("q=" + q.get_str() + " prec=" + str(prec));
    if (index < 2 && rep == 0) sample("q=" + q.get_str() + " prec=" + str(prec));
    integers<short>(rng);
    integers<unsigned short>(rng);
    integers<int>(rng);
    integers<unsigned int>(rng);
    integers<long>(rng);
    integers<unsigned long>(rng);
    integers<long long>(rng);
    integers<unsigned long long>(rng);
    {
      mpz_class z = randInt(rng, 400);
      Arb a(z), b(3);
      b = z;
      CHECK(ivof(a).exact() && ivof(a).lo == z && a.equal(b), "integer", "Arb(" << z << ") is " << show(a.arb_t()));
      double d = std::ldexp(static_cast<double>(static_cast<long>(rng.next())), static_cast<int>(rng.range(-1100, 900)));
      b = d;
      CHECK(mid(b.arb_t()) == Dy::ofDouble(d) && b.is_exact(), "double", "Arb = " << d << " is " << show(b.arb_t()));
      tally("exact conversions", 3);
    }
    {
      auto rel = [&](const Arb& x, long p, const char* what) {
        CHECK(contains(x.arb_t(), q), "not-contained", what << " of " << q << " at precision " << p << " is " << show(x.arb_t()));
        IV i = ivof(x);
        CHECK((i.hi - i.lo) <= absq(q) * pow2(2 - p), "inaccurate", what << " of " << q << " at precision " << p << " is " << show(x.arb_t()));
        tally("rationals enclosed accurately");
      };
      rel(Arb(q), 64, "Arb(mpq)");
      rel(Arb(q, prec), prec, "Arb(mpq, prec)");
    }
    {
      // intervals
      mpq_class w = rng.chance(1, 4) ? mpq_class(0) : mpq_class(absq(randQ(rng, 40)) * pow2(rng.range(-100, 5)));
      Dy lo = randDy(rng, 100, 150), hi = add(lo, rng.chance(1, 3) ? Dy() : Dy(abs(randInt(rng, 60)), rng.range(-200, 60)), EXACT, Rnd::NEAR);
      std::pair<Arf, Arf> p;
      setArf(p.first.arf_t(), lo);
      setArf(p.second.arf_t(), hi);
      bool exact = rng.chance(1, 3);
      Arb a = exact ? Arb(p) : Arb(p, prec);
      IV i = ivof(a);
      mpq_class l = lo.q(), h = hi.q();
      CHECK(i.lo <= l && h <= i.hi, "not-contained", "[" << lo << ", " << hi << "] is not in " << show(a.arb_t()) << " constructed at precision " << (exact ? -1 : prec));
      mpq_class mx = absq(l) > absq(h) ? absq(l) : absq(h);
      mpq_class bound = (h - l) * (1 + pow2(-26)) + (exact ? mpq_class(0) : mpq_class(mx * pow2(3 - prec)));
      CHECK(i.hi - i.lo <= bound, "inaccurate", "[" << lo << ", " << hi << "] became " << show(a.arb_t()) << " constructed at precision " << (exact ? -1 : prec));
      tally("intervals enclosed accurately");
    }
    {
      // conversions of balls
      Arb b;
      randBall(b, rng);
      const IV i = ivof(b);
      const Dy m = mid(b.arb_t()), r = rad(b.arb_t());
      CHECK(dy(static_cast<Arf>(b).arf_t()) == m, "midpoint", show(b.arb_t()));
      double d = static_cast<double>(b), w = nearest(m);
      CHECK(d == w, "double", show(b.arb_t()) << " converts to " << d << " and not to " << w);
      CHECK(b.is_exact() == r.zero() && b.is_finite(), "predicates", show(b.arb_t()));
      auto pr = static_cast<std::pair<Arf, Arf>>(b);
      Dy dl = dy(pr.first.arf_t()), dh = dy(pr.second.arf_t());
      CHECK(dl.fin() && dh.fin() && dl.q() <= i.lo && i.hi <= dh.q(), "bounds", "[" << dl << ", " << dh << "] does not enclose " << show(b.arb_t()));
      mpq_class slack = r.zero() ? mpq_class(0) : mpq_class(8 * r.q() + (absq(m.q()) + r.q()) * pow2(-24));
      if (!r.zero() && arb_rel_accuracy_bits(b.arb_t()) >= 32) slack = 16 * r.q();
      CHECK(i.lo - dl.q() <= slack && dh.q() - i.hi <= slack, "bounds", "[" << dl << ", " << dh << "] is a bad enclosure of " << show(b.arb_t()));
      Arf a;
      Dy x = randDy(rng, 200, 200);
      setArf(a.arf_t(), x);
      Arb e(a);
      CHECK(mid(e.arb_t()) == x && e.is_exact(), "Arb(Arf)", x << " became " << show(e.arb_t()));
      e = a;
      CHECK(mid(e.arb_t()) == x && e.is_exact(), "Arb = Arf", x << " became " << show(e.arb_t()));
      // negation, copies, moves
      Arb n = -b;
      CHECK(mid(n.arb_t()) == neg(m) && rad(n.arb_t()) == r, "negate", show(b.arb_t()));
      n = -std::as_const(b);
      CHECK(mid(n.arb_t()) == neg(m) && rad(n.arb_t()) == r, "negate", show(b.arb_t()) << ", a constant");
      n = std::as_const(b).operator-();
      CHECK(mid(n.arb_t()) == neg(m) && rad(n.arb_t()) == r && mid(b.arb_t()) == m, "negate", show(b.arb_t()) << ", a constant");
      for (const Arb& special : {Arb::pos_inf(), Arb::neg_inf(), Arb::zero_pm_inf(), Arb::indeterminate(), Arb::zero()}) {
        const Arb neg1 = -special;
        CHECK(mid(neg1.arb_t()) == neg(mid(special.arb_t())) && rad(neg1.arb_t()) == rad(special.arb_t()), "negate", show(special.arb_t()));
      }
      Arb c(b);
      CHECK(c.equal(b) && arb_equal(c.arb_t(), b.arb_t()), "copy", show(b.arb_t()));
      Arb mv(std::move(c));
      CHECK(arb_equal(mv.arb_t(), b.arb_t()), "move", show(b.arb_t()));
      c = mv;
      CHECK(arb_equal(c.arb_t(), b.arb_t()) && arb_equal(mv.arb_t(), b.arb_t()), "assign to moved-from", show(b.arb_t()));
      Arb* alias = &c;
      c = *alias;
      c = std::move(*alias);
      CHECK(arb_equal(c.arb_t(), b.arb_t()), "self assignment", show(b.arb_t()));
      swap(c, e);
      CHECK(arb_equal(e.arb_t(), b.arb_t()) && mid(c.arb_t()) == x, "swap", show(b.arb_t()));
      std::swap(c, e);
      CHECK(arb_equal(c.arb_t(), b.arb_t()) && mid(e.arb_t()) == x, "std::swap", show(b.arb_t()));
      e = std::move(c);
      CHECK(arb_equal(e.arb_t(), b.arb_t()), "move assign", show(b.arb_t()));
      bool same = arb_equal(b.arb_t(), n.arb_t());
      CHECK(b.equal(n) == same, "equal", show(b.arb_t()) << " and its negative");
      tally("balls converted");
      // what is printed contains the ball, up to the shortened radius
      std::ostringstream os;
      int digits = static_cast<int>(rng.range(1, 40));
      os << std::setprecision(digits) << b;
      Ball parsed;
      if (arb_set_str(parsed.b, os.str().c_str(), 2000) != 0) fail("print", os.str() + " can not be read back");
      CHECK(arb_contains(parsed.b, b.arb_t()), "print", os.str() << " does not contain " << show(b.arb_t()));
      Arb again(os.str(), 2000);
      CHECK(arb_contains(again.arb_t(), b.arb_t()), "Arb(string)", "Arb(" << os.str() << ") does not contain " << show(b.arb_t()));
      tally("balls printed and read back");
    }
    {
      // decimal strings
      mpz_class n = randInt(rng, 60), d = rng.range(0, 1000);
      long k = rng.range(0, 30), k2 = rng.range(0, 20);
      std::string s = n.get_str() + "e-" + str(k);
      mpz_class t, t2;
      mpz_ui_pow_ui(t.get_mpz_t(), 10, k);
      mpz_ui_pow_ui(t2.get_mpz_t(), 10, k2);
      mpq_class v(n, t), w(d, t2);
      v.canonicalize();
      w.canonicalize();
      Arb a("[" + s + " +/- " + d.get_str() + "e-" + str(k2) + "]", prec), b(s, prec);
      CHECK(contains(b.arb_t(), v), "Arb(string)", "Arb(" << s << ", " << prec << ") is " << show(b.arb_t()));
      CHECK(contains(a.arb_t(), mpq_class(v - w)) && contains(a.arb_t(), mpq_class(v + w)), "Arb(string)", "Arb([" << s << "+/-" << w << "], " << prec << ") is " << show(a.arb_t()));
      CHECK(ivof(b).hi - ivof(b).lo <= absq(v) * pow2(4 - prec), "Arb(string)", "Arb(" << s << ", " << prec << ") is inaccurate: " << show(b.arb_t()));
      tally("strings enclosed", 2);
    }
  }
  {
    // number field elements
    const Field& F = Field::any(rng);
    for (int k = 0; k < 3; k++) {
      NF x = NF::random(F, rng, rng.of({30UL, 62UL, 64UL, 200UL}));
      long prec = rng.chance(1, 100) ? rng.range(800, 9000) : rng.chance(1, 2) ? rng.range(4, 100) : rng.range(4, 800);
      auto e = x.antic();
      // queries that leave an approximation in the element
      if (rng.chance(1, 2)) (void)e.floor();
      if (rng.chance(1, 2)) (void)static_cast<double>(e);
      IV truth = x.enclose(prec + 200);
      auto within = [&](const Arb& a, long p, const char* what) {
        IV i = ivof(a);
        CHECK(i.lo <= truth.lo && truth.hi <= i.hi, "not-contained", what << " of " << x << " at precision " << p << " is " << show(a.arb_t()) << " but the element is in " << truth);
        // Relative to the size of the terms.
        CHECK(i.hi - i.lo <= x.height() * pow2(8 - p), "inaccurate", what << " of " << x << " at precision " << p << " is " << show(a.arb_t()));
        tally("number field elements enclosed accurately");
      };
      within(Arb(e), 64, "Arb(renf)");
      within(Arb(e, prec), prec, "Arb(renf, prec)");
      within(Arb(e, 8), 8, "Arb(renf, 8) after a more precise query");
    }
  }
  if (index % 50 == 0) {
    CHECK(mid(Arb().arb_t()).zero() && Arb().is_exact(), "constants", "Arb()");
    CHECK(mid(Arb::zero().arb_t()).zero() && Arb::zero().is_exact(), "constants", "zero");
    CHECK(mid(Arb::one().arb_t()) == Dy(1) && Arb::one().is_exact(), "constants", "one");
    CHECK(mid(Arb::pos_inf().arb_t()).k == Dy::PINF && Arb::pos_inf().is_exact() && !Arb::pos_inf().is_finite(), "constants", "pos_inf");
    CHECK(mid(Arb::neg_inf().arb_t()).k == Dy::NINF && Arb::neg_inf().is_exact() && !Arb::neg_inf().is_finite(), "constants", "neg_inf");
    CHECK(mag_is_inf(arb_radref(Arb::zero_pm_inf().arb_t())) && mid(Arb::zero_pm_inf().arb_t()).zero(), "constants", "zero_pm_inf");
    CHECK(mid(Arb::indeterminate().arb_t()).k == Dy::NAN_ && mag_is_inf(arb_radref(Arb::indeterminate().arb_t())), "constants", "indeterminate");
    IV u = ivof(Arb::unit_interval()), z = ivof(Arb::zero_pm_one());
    CHECK(u.lo == 0 && u.hi == 1, "constants", "unit_interval " << u);
    CHECK(z.lo == -1 && z.hi == 1, "constants", "zero_pm_one " << z);
    flint_rand_t st;
    flint_randinit(st);
    for (int k = 0; k < 20; k++) {
      long p = rng.range(2, 200);
      Arb r = Arb::randtest_exact(st, p, 10);
      CHECK(r.is_exact() && r.is_finite() && static_cast<long>(bits(mid(r.arb_t()).m)) <= p, "randtest_exact", "precision " << p << " but " << show(r.arb_t()));
      Arb s = Arb::randtest(st, p, 10);
      CHECK(s.is_finite() && wellformed(arb_midref(s.arb_t())), "randtest", show(s.arb_t()));
    }
    flint_randclear(st);
    tally("constants checked");
  }
}

// ------------------------------------------------------------------ C04
using OB = std::optional<bool>;
static std::string showOB(const OB& x) { return !x ? "undecided" : *x ? "true" : "false"; }

// What the six comparisons have to return for all pairs of points.
static void expectations(const mpq_class& alo, const mpq_class& ahi, const mpq_class& blo, const mpq_class& bhi, OB want[6]) {
  auto tri = [](bool t, bool f) { return t ? OB(true) : f ? OB(false) : OB(); };
  want[0] = tri(ahi < blo, alo >= bhi);                                   // <
  want[1] = tri(ahi <= blo, alo > bhi);                                   // <=
  want[2] = tri(alo > bhi, ahi <= blo);                                   // >
  want[3] = tri(alo >= bhi, ahi < blo);                                   // >=
  want[4] = tri(alo == ahi && blo == bhi && alo == blo, ahi < blo || bhi < alo);  // ==
  want[5] = want[4] ? OB(!*want[4]) : OB();                               // !=
}
static const char* NAMES[6] = {"<", "<=", ">", ">=", "==", "!="};

// `margin`: how far from the decision the operands have to be before an answer can be demanded.
template <typename B>
static void compare(const Arb& a, const IV& ia, const B& b, const IV& ib, const std::string& shown, const mpq_class& margin = 0) {
  const OB got[6] = {a < b, a <= b, a > b, a >= b, a == b, a != b};
  OB sound[6], complete[6];
  expectations(ia.lo, ia.hi, ib.lo, ib.hi, sound);
  expectations(mpq_class(ia.lo - margin), mpq_class(ia.hi + margin), ib.lo, ib.hi, complete);
  for (int k = 0; k < 6; k++) {
    if (got[k]) {
      CHECK(sound[k] && *sound[k] == *got[k], "unsound-comparison", show(a.arb_t()) << " " << NAMES[k] << " " << shown << " returned " << showOB(got[k]) << " but for the numbers in these balls it is " << showOB(sound[k]));
      tally("decided comparisons");
    } else {
      CHECK(!complete[k], "undecided-comparison", show(a.arb_t()) << " " << NAMES[k] << " " << shown << " returned nothing but for the numbers in these balls it is " << showOB(complete[k]));
      tally("undecided comparisons");
    }
  }
}
template <typename T>
static void compareInt(const Arb& a, const IV& ia, Rng& rng) {
  T x;
  mpz_class near = rng.chance(1, 2) ? floorQ(ia.lo) : ceilQ(ia.hi);
  near += rng.range(-1, 1);
  if (near < mpz_class(std::to_string(std::numeric_limits<T>::min())) || near > mpz_class(std::to_string(std::numeric_limits<T>::max())) || rng.chance(1, 8)) x = rng.of<T>({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0), T(1)});
  else if (std::is_signed_v<T>) x = static_cast<T>(near.get_si());
  else x = static_cast<T>(near.get_ui());
  mpq_class v;
  if (std::is_signed_v<T>) v = static_cast<long>(x);
  else v = static_cast<unsigned long>(x);
  compare(a, ia, x, IV(v), v.get_str());
}

PROPERTY(C04) {
  for (int rep = 0; rep < 10; rep++) {
    Arb a, b;
    randBall(a, rng);
    const IV ia = ivof(a);
    // The second ball is often adjacent to the first.
    switch (rng.below(5)) {
      case 0: randBall(b, rng); break;
      case 1: setBall(b.arb_t(), mid(a.arb_t()), rng.chance(1, 2) ? Dy() : randRad(rng, mid(a.arb_t()))); break;
      default: {
        // touching, or nearly so
        Dy r = rng.chance(1, 3) ? Dy() : randRad(rng, mid(a.arb_t()));
        r = roundTo(r.m, r.e, 30, Rnd::DOWN);
        Dy m = add(add(mid(a.arb_t()), rad(a.arb_t()), EXACT, Rnd::NEAR), r, EXACT, Rnd::NEAR);
        if (rng.chance(1, 2)) m = sub(sub(mid(a.arb_t()), rad(a.arb_t()), EXACT, Rnd::NEAR), r, EXACT, Rnd::NEAR);
        if (rng.chance(1, 2)) m = add(m, Dy(rng.of({1, -1}), m.zero() ? mpz_class(-90) : mpz_class(m.top() - rng.range(1, 100))), EXACT, Rnd::NEAR);
        setBall(b.arb_t(), m, r);
      }
    }
    const IV ib = ivof(b);
    uint64_t h = hcomb(hcomb(hashQ(ia.lo), hashQ(ia.hi)), hcomb(hashQ(ib.lo), hashQ(ib.hi)));
    cover(h);
    if (index < 2 && rep == 0) sample(show(a.arb_t()) + " with " + show(b.arb_t()));
    at(show(a.arb_t()) + " with " + show(b.arb_t()));
    compare(a, ia, b, ib, show(b.arb_t()));
    compare(b, ib, a, ia, show(a.arb_t()));
    compare(a, ia, a, ia, "itself");
    compareInt<short>(a, ia, rng);
    compareInt<unsigned short>(a, ia, rng);
    compareInt<int>(a, ia, rng);
    compareInt<unsigned int>(a, ia, rng);
    compareInt<long>(a, ia, rng);
    compareInt<unsigned long>(a, ia, rng);
    compareInt<long long>(a, ia, rng);
    compareInt<unsigned long long>(a, ia, rng);
    for (int k = 0; k < 4; k++) {
      mpq_class q;
      switch (rng.below(6)) {
        case 0: q = ia.lo; break;
        case 1: q = ia.hi; break;
        case 2: q = (ia.lo + ia.hi) / 2; break;
        case 3: q = (rng.chance(1, 2) ? ia.lo : ia.hi) + mpq_class(rng.range(-1, 1), 3) * pow2(rng.chance(1, 40) ? rng.range(-12000, -150) : rng.range(-150, 10)); break;
        case 4: {
          // a tiny bit away, with a denominator of many digits
          mpz_class d = randInt(rng, rng.chance(1, 20) ? 12000 : 400);
          q = rng.chance(1, 2) ? ia.lo : ia.hi;
          if (d != 0) q += mpq_class(mpz_class(sgn(d)), abs(d));
          q.canonicalize();
          break;
        }
        default: q = randQ(rng, rng.chance(1, 40) ? 9000 : 80);
      }
      // Rationals are compared after scaling the ball which may inflate the radius by a relative 2^-28.
      mpq_class margin = rad(a.arb_t()).q() * pow2(-26);
      at(show(a.arb_t()) + " with " + q.get_str());
      compare(a, ia, q, IV(q), q.get_str(), margin);
      tally("comparisons with rationals", 6);
    }
    // infinite balls: only what must not be claimed
    Arb inf = rng.chance(1, 2) ? Arb::zero_pm_inf() : Arb::indeterminate();
    CHECK(!(inf < a) && !(inf > a) && !(a <= inf) && !(a >= inf) && !(inf == a) && !(inf != a), "unsound-comparison", "of an unbounded ball with " << show(a.arb_t()));
    Arb pi = Arb::pos_inf(), ni = Arb::neg_inf();
    CHECK((a < pi) == OB(true) && (a > pi) == OB(false) && (ni < a) == OB(true) && (a <= ni) == OB(false) && (a == pi) == OB(false) && (ni < pi) == OB(true), "unsound-comparison", "of an infinity with " << show(a.arb_t()));
    tally("comparisons with infinities");
  }
}
#endif

}  // namespace verif
