// C05-C10: real numbers.
#include <climits>
#include <cmath>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include <thread>
#include <unordered_set>

#include "reals.hpp"

namespace verif {
namespace {



struct Pool {
  std::vector<std::unique_ptr<Base>> owned;
  std::vector<const Base*> irrational, all;
  Pool(Rng& rng, int n, bool rationals = true) {
    for (int i = 0; i < n; i++) {
      owned.push_back(std::make_unique<Base>(randomBase(rng, rationals)));
      all.push_back(owned.back().get());
      if (!owned.back()->q) irrational.push_back(owned.back().get());
    }
  }
  // A single number or a product
  Real any(Rng& rng, int maxdegree = 5) const {
    if (irrational.empty() || rng.chance(1, 2)) {
      const Base* b = all[rng.below(all.size())];
      Real r;
      r.x = b->x;
      r.factors = {{b, 1}};
      return r;
    }
    return randomProduct(irrational, rng, static_cast<int>(rng.range(1, maxdegree)));
  }
};

int compareTruth(const Real& x, const mpq_class& y) {
  for (long prec = 64;; prec *= 4) {
    IV i = x.at(prec);
    if (i.lo > y) return 1;
    if (i.hi < y) return -1;
    if (i.exact()) return 0;
    if (prec > 300000) throw std::logic_error("model: comparison does not end for " + x.desc());
  }
}
int compareTruth(const Real& x, const Real& y) {
  for (long prec = 64;; prec *= 4) {
    IV i = x.at(prec), j = y.at(prec);
    if (i.lo > j.hi) return 1;
    if (i.hi < j.lo) return -1;
    if (i.exact() && j.exact()) return 0;
    if (prec > 300000) throw std::logic_error("model: comparison does not end for " + x.desc() + " and " + y.desc());
  }
}
long randomPrec(Rng& rng) {
  if (rng.chance(1, 300)) return rng.range(1500, 9000);
  switch (rng.below(6)) {
    case 0: return rng.of<long>({1, 2, 3, 30, 52, 53, 54, 55, 63, 64, 65, 66, 127, 128, 129, 256});
    case 1: return rng.range(1, 1500);
    case 2: return rng.range(1, 12);
    default: return rng.range(1, 300);
  }
}
uint64_t hashReal(const Real& x) { return hstr(x.desc()); }

}  // namespace

// A log of approximations is checked against the value established afterwards.
PROPERTY(C05) {
  Pool pool(rng, 3);
  struct Event {
    size_t who;
    long prec;
    Dy value;
  };
  std::vector<Real> reals;
  int n = static_cast<int>(rng.range(1, 4));
  for (int i = 0; i < n; i++) reals.push_back(pool.any(rng, rng.chance(1, 8) ? 30 : 5));
  std::vector<Event> log;
  // Sometimes enough different precisions are used to evict what has been cached.
  int queries = rng.chance(1, 12) ? 400 : static_cast<int>(rng.range(4, 40));
  long span = rng.chance(1, 2) ? 0 : rng.range(1, 500);
  for (int i = 0; i < queries; i++) {
    Event e;
    e.who = rng.below(reals.size());
    e.prec = queries == 400 ? span + i % 160 : rng.chance(1, 30) ? rng.range(-3, 0) : randomPrec(rng);
    at("arf(" + str(e.prec) + ") of " + reals[e.who].desc());
    Arf a = reals[e.who].x->arf(e.prec);
    CHECK(wellformed(a.arf_t()), "malformed", "arf(" << e.prec << ") of " << reals[e.who].desc());
    e.value = dy(a.arf_t());
    log.push_back(e);
    if (rng.chance(1, 20)) {
      // other uses of the number must not influence it
      (void)static_cast<double>(*reals[e.who].x);
      std::ostringstream os;
      os << *reals[e.who].x;
    }
  }
  std::vector<IV> truth;
  long most = 1500;
  for (auto& e : log) most = std::max(most, e.prec);
  peak("precision", static_cast<double>(most));
  for (auto& r : reals) truth.push_back(r.at(most + 1000));
  std::map<std::pair<size_t, long>, Dy> seen;
  for (size_t k = 0; k < log.size(); k++) {
    const auto& e = log[k];
    const IV& t = truth[e.who];
    CHECK(e.value.fin(), "not-finite", "arf(" << e.prec << ") of " << reals[e.who].desc() << " is " << e.value);
    mpq_class v = e.value.q();
    mpq_class err = v < t.lo ? mpq_class(t.lo - v) : v > t.hi ? mpq_class(v - t.hi) : mpq_class(0);
    mpq_class size = absq(t.lo) > absq(t.hi) ? absq(t.lo) : absq(t.hi);
    CHECK(err <= size * pow2(-std::max(e.prec, 0L)), "inaccurate", "query #" << k << " arf(" << e.prec << ") of " << reals[e.who].desc() << " is " << e.value << " but the number is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "], relative error 2^" << std::log2(mpq_class(err / size).get_d()));
    auto it = seen.find({e.who, e.prec});
    if (it == seen.end()) seen[{e.who, e.prec}] = e.value;
    else {
      CHECK(it->second == e.value, "inconsistent", "arf(" << e.prec << ") of " << reals[e.who].desc() << " returned " << it->second << " and later " << e.value);
      tally("repeated queries");
    }
    tally("approximations checked");
    if (reals[e.who].factors.size() > 1 || reals[e.who].factors[0].second > 1) tally("approximations of products");
  }
  // The same number obtained once more is the same number.
  for (auto& b : pool.all)
    if (b->remake) {
      RealPtr again = b->remake();
      CHECK(again == b->x, "not-unique", b->desc << " was created a second time while the first one was in use");
      tally("numbers created again while alive");
    }
  // …also when it has been forgotten in the meantime.
  Pool fresh(rng, 1);
  auto& b = *fresh.owned[0];
  if (b.remake) {
    long p = randomPrec(rng), p2 = randomPrec(rng);
    Dy a = dy(b.x->arf(p).arf_t());
    b.x.reset();
    b.x = b.remake();
    (void)b.x->arf(p2);
    CHECK(dy(b.x->arf(p).arf_t()) == a, "not-reproducible", "arf(" << p << ") of " << b.desc << " changed from " << a << " to " << b.x->arf(p) << " when it was created again");
    tally("numbers created again after they were gone");
  }
  if (rng.chance(1, 4)) {
    const long p = randomPrec(rng);
    transients(rng, [&](const Base& t) {
      at("arf(" + str(p) + ") of " + t.desc);
      const Dy a = dy(t.x->arf(p).arf_t());
      const IV v = t.at(p + 200);
      const mpq_class d = absq(mpq_class(a.q() - v.lo));
      CHECK(d <= absq(v.lo) * pow2(-p) * mpq_class(9, 8) + (v.hi - v.lo), "stale", "arf(" << p << ") of " << t.desc << ", asked first, is " << a << " but the number is about " << v.lo.get_d());
    });
  }
  uint64_t h = 5;
  for (auto& r : reals) h = hcomb(h, hashReal(r));
  for (auto& e : log) h = hcomb(h, e.prec);
  cover(h);
  if (index < 2) sample(str(queries) + " queries on " + reals[0].desc());
}

PROPERTY(C06) {
  if (rng.chance(1, 4)) {
    const long p = randomPrec(rng);
    transients(rng, [&](const Base& t) {
      at("arb(" + str(p) + ") of " + t.desc);
      auto i = iv(t.x->arb(p).arb_t());
      const IV v = t.at(p + 200);
      CHECK(i && i->lo <= v.hi && v.lo <= i->hi, "stale", "arb(" << p << ") of " << t.desc << ", asked first, does not contain it");
    });
  }
  Pool pool(rng, 3);
  for (int rep = 0; rep < 6; rep++) {
    Real r = pool.any(rng, rng.chance(1, 8) ? 20 : 4);
 long prec = randomPrec(rng);
    peak("precision", static_cast<double>(prec));
    at("arb(" + str(prec) + ") of " + r.desc());
    cover(hcomb(hashReal(r), prec));
    if (index < 2 && rep == 0) sample("arb(" + str(prec) + ") of " + r.desc());
    peak("precision", static_cast<double>(prec));
    const Arb a = r.x->arb(prec);
    auto truth = [&](long p) { return r.at(p); };
    IV t = truth(prec + 400);
    const bool zero = t.exact() && t.lo == 0;
    auto encloses = [&](const Arb& b, long p, const char* what) {
      auto i = iv(b.arb_t());
      CHECK(i, "not-finite", what << " with precision " << p << " of " << r.desc() << " is " << show(b.arb_t()));
      CHECK(i->lo <= t.lo && t.hi <= i->hi, "not-contained", what << " with precision " << p << " of " << r.desc() << " is " << show(b.arb_t()) << " but the number is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "]");
      if (!zero) CHECK(arb_rel_accuracy_bits(b.arb_t()) >= p, "inaccurate", what << " with precision " << p << " of " << r.desc() << " is " << show(b.arb_t()) << " with only " << arb_rel_accuracy_bits(b.arb_t()) << " bits");
      tally("balls checked");
    };
    encloses(a, prec, "arb()");
    {
      // refine balls containing the number
      Arb b;
      Dy m = dy(r.x->arf(rng.range(2, 200)).arf_t());
      mpq_class off = absq(mpq_class(m.q() - t.lo)) + absq(mpq_class(m.q() - t.hi));
      Dy rad = roundTo(stickyDy(off, 60).m, stickyDy(off, 60).e, 30, Rnd::UP);
      if (rng.chance(1, 2)) rad = mul(rad, Dy(1, rng.range(0, 60)), 30, Rnd::UP);
      if (rad.zero() && !t.exact()) rad = Dy(1, m.zero() ? mpz_class(0) : mpz_class(m.top() - 1));
      switch (rng.below(6)) {
        case 0: b = Arb::zero_pm_inf(); break;
        case 1: b = a; break;
        default: setBall(b.arb_t(), m, rad);
      }
      if (!mag_is_inf(arb_radref(b.arb_t())) && arf_is_finite(arb_midref(b.arb_t()))) {
        auto i = iv(b.arb_t());
        if (!(i->lo <= t.lo && t.hi <= i->hi)) b = Arb::zero_pm_inf();  // not a legal input
      }
      long p2 = randomPrec(rng);
      if (p2 > prec) t = truth(p2 + 400);
      std::string before = show(b.arb_t());
      bool good = arb_rel_accuracy_bits(b.arb_t()) >= p2;
      Ball0 keep(b.arb_t());
      at("refine(" + before + ", " + str(p2) + ") of " + r.desc());
      r.x->refine(b, p2);
      encloses(b, p2, "refine()");
      if (good) {
        CHECK(arb_equal(keep.b, b.arb_t()), "changed", "refine(" << before << ", " << p2 << ") of " << r.desc() << " changed a ball that was good enough to " << show(b.arb_t()));
        tally("balls that were good enough");
      } else tally("balls refined");
    }
    {
      // where is the number with respect to a ball?
      Arb b;
      Dy m = dy(r.x->arf(rng.range(2, 150)).arf_t()), rad;
      if (rng.chance(1, 4)) m = randDy(rng, 20, 40);
      switch (rng.below(4)) {
        case 0: rad = Dy(); break;
        case 1: rad = m.zero() ? Dy(1, -20) : Dy(static_cast<long>(1 + rng.below(1 << 20)), m.top() - rng.range(0, 150)); break;
        case 2: rad = Dy(1, rng.range(-100, 20)); break;
        default: {
          // the number is close to the boundary
          mpq_class off = absq(mpq_class(m.q() - t.lo));
          Dy s = stickyDy(off, 60);
          rad = roundTo(s.m, s.e, 30, rng.of({Rnd::UP, Rnd::DOWN}));
        }
      }
      setBall(b.arb_t(), m, rad);
      auto i = iv(b.arb_t());
      if (i) {
        at("cmp(" + show(b.arb_t()) + ") of " + r.desc());
        int got = r.x->cmp(b);
        int lo = compareTruth(r, i->lo), hi = compareTruth(r, i->hi);
        std::string d = "cmp(" + show(b.arb_t()) + ") of " + r.desc() + " is " + str(got);
        if (lo >= 0 && hi <= 0) CHECK(got == 0, "cmp", d << " but the ball contains the number");
        else if (lo < 0) CHECK(got == -1 || got == 0, "cmp", d << " but the number is left of the ball");
        else CHECK(got == 1 || got == 0, "cmp", d << " but the number is right of the ball");
        mpq_class slack = i->exact() ? mpq_class(0) : mpq_class(8 * (i->hi - i->lo) + (absq(i->lo) + absq(i->hi)) * pow2(-24));
        if (lo < 0 && compareTruth(r, mpq_class(i->lo - slack)) < 0) CHECK(got == -1, "cmp", d << " but the number is clearly left of the ball");
        if (hi > 0 && compareTruth(r, mpq_class(i->hi + slack)) > 0) CHECK(got == 1, "cmp", d << " but the number is clearly right of the ball");
        tally(got ? "positions outside of a ball" : "positions inside of a ball");
      }
      CHECK(r.x->cmp(Arb::zero_pm_inf()) == 0 && r.x->cmp(Arb::indeterminate()) == 0, "cmp", "with unbounded ball of " << r.desc());
      CHECK(r.x->cmp(Arb::pos_inf()) == -1 && r.x->cmp(Arb::neg_inf()) == 1, "cmp", "with infinity of " << r.desc());
    }
  }
}

static double nearestTruth(const Real& x) {
  for (long prec = 64;; prec *= 2) {
    IV i = x.at(prec);
    if (i.exact()) return nearest(i.lo);
    double a = nearest(i.lo), b = nearest(i.hi);
    if (a == b) return a;
    if (prec > 100000) throw std::logic_error("model: nearest double");
  }
}

PROPERTY(C07) {
  if (rng.chance(1, 2))
    transients(rng, [&](const Base& t) {
      at("double of " + t.desc);
      const double got = static_cast<double>(*t.x);
      Real r;
      r.x = t.x;
      r.factors = {{&t, 1}};
      const double want = nearestTruth(r);
      CHECK(got == want, "not-nearest", "static_cast<double> of " << t.desc << " is " << Dy::ofDouble(got) << " but the nearest double is " << Dy::ofDouble(want));
    });
  Pool pool(rng, 4);
  for (int rep = 0; rep < 10; rep++) {
    Real r = pool.any(rng);
    if (rng.chance(1, 3)) (void)r.x->arf(rng.chance(1, 2) ? 54 : randomPrec(rng));
    at("double of " + r.desc());
    double got = static_cast<double>(*r.x), want = nearestTruth(r);
    CHECK(got == want, "not-nearest", "static_cast<double> of " << r.desc() << " is " << Dy::ofDouble(got) << " but the nearest double is " << Dy::ofDouble(want));
    CHECK(static_cast<double>(*r.x) == want, "not-nearest", "second conversion of " << r.desc());
    cover(hashReal(r));
    tally("conversions to double");
    if (r.rational()) tally("conversions of rationals");
    auto q = static_cast<std::optional<mpq_class>>(*r.x);
    CHECK(q.has_value() == r.rational() && (!q || *q == r.at(2).lo), "rational", "conversion to rational of " << r.desc());
    CHECK(static_cast<bool>(*r.x) == !(r.rational() && r.at(2).lo == 0), "bool", "conversion to bool of " << r.desc());
    if (r.rational()) {
      std::ostringstream os;
      os << *r.x;
      CHECK(os.str() == r.at(2).lo.get_str(), "print", r.desc() << " printed as " << os.str());
    }
    if (index < 2 && rep == 0) sample(r.desc());
  }
}

template <typename A, typename B>
static void compareAll(const A& x, const B& y, int want, const std::function<std::string()>& what) {
  const bool got[6] = {x < y, x <= y, x > y, x >= y, x == y, x != y};
  const bool w[6] = {want < 0, want <= 0, want > 0, want >= 0, want == 0, want != 0};
  static const char* names[6] = {"<", "<=", ">", ">=", "==", "!="};
  for (int k = 0; k < 6; k++) CHECK(got[k] == w[k], "comparison", what() << ": operator " << names[k] << " returned " << got[k] << " but the sign of the difference is " << want);
  const bool rev[6] = {y > x, y >= x, y < x, y <= x, y == x, y != x};
  for (int k = 0; k < 6; k++) CHECK(rev[k] == w[k], "comparison", what() << ": reversed operator " << names[k] << " returned " << rev[k] << " but the sign of the difference is " << want);
  tally("comparisons", 12);
}
template <typename T>
static void compareInteger(const Real& r, Rng& rng) {
  T v;
  IV i = r.at(100);
  mpz_class near = floorQ(i.lo) + rng.range(-1, 2);
  mpz_class mn(std::to_string(std::numeric_limits<T>::min())), mx(std::to_string(std::numeric_limits<T>::max()));
  if (near < mn || near > mx || rng.chance(1, 4)) v = rng.of<T>({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0), T(1), T(-1)});
  else v = std::is_signed_v<T> ? static_cast<T>(near.get_si()) : static_cast<T>(near.get_ui());
  mpz_class z(std::to_string(v));
  compareAll(*r.x, v, compareTruth(r, mpq_class(z)), [&] { return r.desc() + " and integer " + z.get_str(); });
}

PROPERTY(C08) {
  Pool pool(rng, 4);
  if (rng.chance(1, 2)) {
    Real y;
    y.x = pool.all[0]->x;
    y.factors = {{pool.all[0], 1}};
    transients(rng, [&](const Base& t) {
      Real r;
      r.x = t.x;
      r.factors = {{&t, 1}};
      at(t.desc + " compared with " + y.desc());
      const bool lt = *t.x < *y.x, gt = *t.x > *y.x;
      const int want = compareTruth(r, y);
      CHECK(lt == (want < 0) && gt == (want > 0), "comparison", t.desc << " and " << y.desc() << ": < " << lt << ", > " << gt << " but the sign of the difference is " << want);
    });
  }
  std::vector<Real> rs;
  std::unique_ptr<Base> near;
  for (int i = 0; i < 5; i++) rs.push_back(pool.any(rng));
  if (rng.chance(1, 3)) {
    // a rational number that can only be told from another number with many digits
    long p = rng.range(2, rng.chance(1, 12) ? 12000 : 600);
    mpq_class q = dy(rs[0].x->arf(p).arf_t()).q();
    if (rs[0].rational()) q = rs[0].at(2).lo + rng.of({-1, 1}) * pow2(-p);
    else if (rng.chance(1, 2)) q = mpq_class(floorQ(mpq_class(q * 3 * pow2(p))), 3) * pow2(-p);
    q.canonicalize();
    auto* b = new Base;
    near.reset(b);
    b->q = q;
    b->x = RealNumber::rational(q);
    b->desc = "rational(" + q.get_str() + ")";
    rs[4] = Real();
    rs[4].x = b->x;
    rs[4].factors = {{b, 1}};
    tally("rational numbers next to another number");
  }
  for (auto& x : rs)
    for (auto& y : rs) {
      int want = x.x == y.x ? 0 : compareTruth(x, y);
      at(x.desc() + " compared with " + y.desc());
      compareAll(*x.x, *y.x, want, [&] { return x.desc() + " and " + y.desc(); });
      cover(hcomb(hashReal(x), hashReal(y)));
      tally("pairs of reals");
    }
  if (index < 2) sample(rs[0].desc() + " compared with " + rs[1].desc());
  for (auto& x : rs) {
    at(x.desc() + " compared with integers");
    compareInteger<signed char>(x, rng);
    compareInteger<unsigned char>(x, rng);
    compareInteger<short>(x, rng);
    compareInteger<unsigned short>(x, rng);
    compareInteger<int>(x, rng);
    compareInteger<unsigned int>(x, rng);
    compareInteger<long>(x, rng);
    compareInteger<unsigned long>(x, rng);
    // nearby dyadic and rational numbers
    long p = rng.chance(1, 3) ? rng.range(50, 700) : rng.range(1, 130);
    if (rng.chance(1, 80)) p = rng.range(700, rng.chance(1, 4) ? 20000 : 6000);
    Dy a = dy(x.x->arf(p).arf_t());
    if (rng.chance(1, 3)) a = add(a, Dy(rng.of({1, -1}), a.zero() ? mpz_class(-p) : mpz_class(a.top() - p)), EXACT, Rnd::NEAR);
    if (rng.chance(1, 8)) a = randDy(rng, 40, 60);
    at(x.desc() + " compared with Arf " + str(a));
    compareAll(*x.x, mkArf(a), compareTruth(x, a.q()), [&] { return x.desc() + " and Arf " + str(a); });
    for (double inf : {HUGE_VAL, -HUGE_VAL}) compareAll(*x.x, Arf(inf), inf > 0 ? -1 : 1, [&] { return x.desc() + " and Arf " + str(inf); });
    mpq_class q = rng.chance(1, 4) ? randQ(rng, rng.chance(1, 20) ? 8000 : 100) : a.q() + a.q() * mpq_class(rng.range(-1, 1), 3) * pow2(-p);
    if (rng.chance(1, 4)) {
      // a denominator of many digits
      mpz_class d = randInt(rng, rng.chance(1, 20) ? 12000 : 300);
      q = x.rational() ? x.at(2).lo : a.q();
      if (d != 0) q += mpq_class(mpz_class(sgn(d)), abs(d));
      q.canonicalize();
    }
    at(x.desc() + " compared with " + q.get_str());
    compareAll(*x.x, q, compareTruth(x, q), [&] { return x.desc() + " and " + q.get_str(); });
    mpz_class z = floorQ(x.at(100).lo) + rng.range(-1, 1);
    compareAll(*x.x, z, compareTruth(x, mpq_class(z)), [&] { return x.desc() + " and " + z.get_str(); });
    if (x.rational()) {
      mpq_class v = x.at(2).lo;
      compareAll(*x.x, v, 0, [&] { return x.desc() + " and itself as a rational"; });
      tally("comparisons of equal values");
    }
  }
}

PROPERTY(C09) {
  // numbers lie in the interval they were asked to be in, and close to the double given
  for (int rep = 0; rep < 4; rep++) {
    Base b = randomBase(rng, false);
    at(b.desc);
    cover(hstr(b.desc));
    if (index < 2 && rep == 0) sample(b.desc);
    IV t = b.at(200);
    if (b.range) {
      CHECK(t.lo <= b.range->hi && b.range->lo <= t.hi, "outside", b.desc << " is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "]");
      // 200 bits leave no doubt, unless the number is extremely close to the boundary
      t = b.at(1500);
      CHECK(t.lo >= b.range->lo - absq(b.range->lo) * pow2(-1400) && t.hi <= b.range->hi + absq(b.range->hi) * pow2(-1400), "outside", b.desc << " is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "]");
      tally("numbers in their interval");
    }
    if (b.close) {
      double d = static_cast<double>(*b.x);
      CHECK(d == *b.close, "not-close", b.desc << " has " << Dy::ofDouble(d) << " as its closest double");
      CHECK(nearest(t.lo) == *b.close && nearest(t.hi) == *b.close, "not-close", b.desc << " is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "]");
      tally("numbers close to their double");
    }
    CHECK(!static_cast<std::optional<mpq_class>>(*b.x), "rational", b.desc);
  }
  // numbers with the same seed in intervals with a common end
  if (rng.chance(1, 2)) {
    const unsigned seed = freshSeed(rng);
    Dy lo = rng.chance(1, 6) ? Dy() : randDy(rng, 100, rng.chance(1, 12) ? 6000UL : rng.of({3UL, 60UL, 70UL, 300UL}));
    const long size = static_cast<long>(mpz_sizeinbase(lo.m.get_mpz_t(), 2));
    const long low = lo.zero() ? 0 : mpz_class(lo.top()).get_si() - size;
    std::vector<std::pair<RealPtr, IV>> xs;
    std::string what = "intervals at " + str(lo) + " with seed " + str(seed);
    for (int i = 0; i < 3; i++) {
      const Dy hi = add(lo, Dy(rng.chance(1, 2) ? 1 : rng.range(1, 9), low - rng.range(-3, 40)), EXACT, Rnd::NEAR);
      at("random number in one of several " + what);
      xs.push_back({RealNumber::random(mkArf(lo), mkArf(hi), Seed(seed)), IV(lo.q(), hi.q())});
      what += ", up to " + str(hi);
    }
    for (auto& [x, range] : xs) {
      const Dy a = dy(x->arf(size + 200).arf_t());
      const mpq_class q = a.q(), e = absq(q) * pow2(1 - size - 200);
      CHECK(q + e >= range.lo && q - e <= range.hi, "outside", "a number in one of several " << what << " is about " << a);
    }
    tally("numbers in intervals with a common end");
  }
  // seeds
  unsigned s = rng.chance(1, 8) ? rng.of({0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xfffffffeu}) : freshSeed(rng);
  RealPtr a = RealNumber::random(Seed(s)), a2 = RealNumber::random(Seed(s)), c = RealNumber::random(Seed(s + 1));
  // Zero and one bound the range of the numbers without an explicit range.
  RealPtr unit = RealNumber::random(Arf(0), Arf(1), Seed(s));
  CHECK(unit == a || (unit->arf(128) >= Arf(0) && unit->arf(128) <= Arf(1)), "outside", "random(0, 1, Seed(" << s << ")) is about " << dy(unit->arf(128).arf_t()));
  CHECK(unit == RealNumber::random(Arf(0), Arf(1), Seed(s)), "seed", "same seed " << s << " but different numbers in [0, 1]");
  RealPtr unseeded = RealNumber::random(Arf(0), Arf(1));
  CHECK(unseeded != a && unseeded->arf(128) >= Arf(0) && unseeded->arf(128) <= Arf(1), "outside", "random(0, 1) is about " << dy(unseeded->arf(128).arf_t()));
  CHECK(a == a2, "seed", "same seed " << s << " but different numbers");
  CHECK(a != c && a->arf(256) != c->arf(256), "seed", "different seeds " << s << " and the next one but the same number");
  std::vector<RealPtr> fresh;
  // no seed is ever handed out twice in a process
  static std::unordered_set<unsigned> seen;
  auto first = [&](const Seed& x) {
    if (!borrowed()) CHECK(seen.insert(x.value).second, "seed", "the seed " << x.value << " has been handed out before, after " << seen.size() << " others");
  };
  if (seen.size() < 3000000 && !borrowed()) {
    for (int i = 0; i < 800; i++) first(Seed());
    tally("seeds that differ from all the earlier ones", 800);
    if (index % 400 < 8) {
      // neither one after the other nor at the same time in different threads
      const int n = static_cast<int>(rng.of({100, 3000, 9000}));
      std::vector<Seed> a, b;
      auto draw = [n](std::vector<Seed>* into) {
        for (int i = 0; i < n; i++) into->push_back(Seed());
      };
      std::thread t(draw, &a);
      if (rng.chance(1, 2)) t.join();
      std::thread u(draw, &b);
      if (t.joinable()) t.join();
      u.join();
      for (auto& x : a) first(x);
      for (auto& x : b) first(x);
      tally("seeds from other threads", 2 * static_cast<uint64_t>(n));
    }
  }
  for (int i = 0; i < 12; i++) {
    Seed seed;
    first(seed);
    switch (rng.below(4)) {
      case 0: fresh.push_back(RealNumber::random()); break;
      case 1: fresh.push_back(RealNumber::random(Arf(2), Arf(3))); break;
      case 2: fresh.push_back(RealNumber::random(1.)); break;
      default: fresh.push_back(RealNumber::random(seed));
    }
  }
  for (size_t i = 0; i < fresh.size(); i++)
    for (size_t j = 0; j < i; j++) CHECK(fresh[i] != fresh[j] && fresh[i]->arf(300) != fresh[j]->arf(300), "seed", "fresh random numbers coincide");
  // the lowest bits are also distinct, i.e., numbers do not share their digits
  std::set<Dy, bool (*)(const Dy&, const Dy&)> tails([](const Dy& x, const Dy& y) { return x.m < y.m; });
  for (auto& f : fresh) {
    Dy d = dy(f->arf(256).arf_t());
    mpz_class low;
    mpz_fdiv_r_2exp(low.get_mpz_t(), d.m.get_mpz_t(), 128);
    tails.insert(Dy(low * 2 + 1, 0));
  }
  CHECK(tails.size() == fresh.size(), "seed", "fresh random numbers share digits");
  tally("fresh numbers that differ", fresh.size());
  // Another process gets the same digits from the same seed, whatever either of them did before.
  if (index % 40 == 0 && !borrowed()) {
    std::vector<Base> bs;
    for (int i = 0; i < 4; i++) {
      bs.push_back(randomBase(rng, false));
      if (!bs.back().remake) bs.pop_back();
    }
    std::vector<long> precs;
    for (size_t i = 0; i < bs.size(); i++) precs.push_back(randomPrec(rng));
    int fd[2];
    if (pipe(fd)) throw std::logic_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
      std::ostringstream os;
      try {
        for (size_t i = 0; i < bs.size(); i++) {
          bs[i].x.reset();
          for (int k = 0; k < 3; k++) (void)RealNumber::random();
          bs[i].x = bs[i].remake();
          os << dy(bs[i].x->arf(precs[i]).arf_t()) << ";";
        }
      } catch (...) {
        os << "exception";
      }
      std::string s = os.str();
      (void)!write(fd[1], s.data(), s.size());
      _exit(0);
    }
    close(fd[1]);
    std::string there;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) there.append(buf, n);
    close(fd[0]);
    waitpid(pid, nullptr, 0);
    std::ostringstream here;
    for (size_t i = bs.size(); i-- > 0;) (void)bs[i].x->arf(rng.range(1, 400));
    for (size_t i = 0; i < bs.size(); i++) here << dy(bs[i].x->arf(precs[i]).arf_t()) << ";";
    CHECK(here.str() == there, "not-reproducible", "another process got " << there << " instead of " << here.str());
    tally("numbers reproduced by another process", bs.size());
  }
  // distribution: 600 numbers of [0,1] are not concentrated, and successive digits vary
  if (index % 100 == 0) {
    int bucket[4] = {0, 0, 0, 0};
    const long places[6] = {5, 53, 64, 65, 128, 250};
    int ones[6] = {0, 0, 0, 0, 0, 0};
    for (int i = 0; i < 600; i++) {
      RealPtr x = RealNumber::random(Seed(freshSeed(rng)));
      double d = static_cast<double>(*x);
      CHECK(d >= 0 && d <= 1, "outside", d);
      bucket[std::min(3, static_cast<int>(d * 4))]++;
      mpq_class v = dy(x->arf(300).arf_t()).q();
      for (int k = 0; k < 6; k++) ones[k] += mpz_tstbit(floorQ(mpq_class(v * pow2(places[k]))).get_mpz_t(), 0);
    }
    for (int k = 0; k < 4; k++) CHECK(bucket[k] > 60, "distribution", "only " << bucket[k] << " of 600 random numbers are in quarter " << k << " of [0, 1]");
    for (int k = 0; k < 6; k++) CHECK(ones[k] > 180 && ones[k] < 420, "distribution", ones[k] << " of 600 random numbers have bit " << places[k] << " set");
    // The same for numbers in an interval, or close to a double.
    Base b = randomBase(rng, false);
    IV range = b.range ? *b.range : IV(0, 1);
    if (b.close) {
      const double d = *b.close, inf = HUGE_VAL;
      Dy m = Dy::ofDouble(d), lo = Dy::ofDouble(std::nextafter(d, -inf)), hi = Dy::ofDouble(std::nextafter(d, inf));
      if (std::isfinite(std::nextafter(d, -inf)) && std::isfinite(std::nextafter(d, inf))) range = IV(mpq_class((lo.q() + 2 * m.q()) / 3), mpq_class((hi.q() + 2 * m.q()) / 3));
      else b.close.reset();
    }
    // (Only the part of the number before the last digits of the bounds is uniform.)
    auto dyadic = [](const mpq_class& q) { return Dy(q.get_num(), -mpz_class(static_cast<unsigned long>(bits(q.get_den()) - 1))); };
    bool wide = b.close.has_value();
    if (b.range) {
      const Dy lo = dyadic(range.lo), hi = dyadic(range.hi);
      const mpz_class last = lo.zero() ? hi.e : hi.zero() ? lo.e : std::min(lo.e, hi.e);
      wide = add(hi, neg(lo), EXACT, Rnd::NEAR).top() > last + 8;
    }
    if (wide) {
      const long prec = std::max<long>(64, stickyDy(mpq_class((absq(range.lo) + absq(range.hi)) / (range.hi - range.lo)), 60).top().get_si() + 64);
      int quarter[4] = {0, 0, 0, 0};
      for (int i = 0; i < 400; i++) {
        unsigned seed = freshSeed(rng);
        RealPtr x = b.close ? RealNumber::random(*b.close, Seed(seed)) : RealNumber::random(mkArf(dyadic(range.lo)), mkArf(dyadic(range.hi)), Seed(seed));
        mpq_class at = (dy(x->arf(prec).arf_t()).q() - range.lo) / (range.hi - range.lo) * 4;
        mpz_class k = floorQ(at);
        quarter[k < 0 ? 0 : k > 3 ? 3 : k.get_si()]++;
      }
      for (int k = 0; k < 4; k++) CHECK(quarter[k] > 40, "distribution", "only " << quarter[k] << " of 400 numbers such as " << b.desc << " are in quarter " << k << " of their interval");
      tally("distributions in intervals");
    }
    tally("distributions");
  }
}

// ------------------------------------------------------------------ C10
using Mono = std::map<int, int>;  // variable -> exponent
static int degree(const Mono& m) {
  int d = 0;
  for (auto& [v, e] : m) d += e;
  return d;
}
static Mono times(Mono a, const Mono& b) {
  for (auto& [v, e] : b) a[v] += e;
  return a;
}
static std::string showMono(const Mono& m) {
  std::string s;
  for (auto& [v, e] : m) s += "x" + str(v) + "^" + str(e) + " ";
  return s.empty() ? "1" : s;
}

PROPERTY(C10) {
  const bool wide = rng.chance(1, 60);
  const int n = static_cast<int>(wide ? rng.range(30, 140) : rng.chance(1, 15) ? rng.range(6, 24) : rng.range(2, 5));
  peak("variables", n);
  std::vector<Base> base;
  std::map<const RealNumber*, int> who;
  for (int i = 0; i < n; i++) base.push_back(randomBase(rng, false));
  std::vector<RealPtr> var;
  for (auto& b : base) var.push_back(b.x);
  const RealPtr one = RealNumber::rational(1);
  // The monomials that are alive; every other reference is dropped.
  std::map<Mono, RealPtr> alive;
  alive[{}] = one;
  for (int i = 0; i < n; i++) alive[{{i, 1}}] = var[i];
  auto enter = [&](const Mono& m, const RealPtr& p, const std::string& how) {
    CHECK(p != nullptr, "product", how << " is null");
    auto it = alive.find(m);
    if (it != alive.end()) {
      CHECK(it->second == p, "not-unique", how << " = " << showMono(m) << " is a different object than the same product obtained before: " << *p << " vs " << *it->second);
      tally("products that were already known");
    } else {
      for (auto& [k, v] : alive) CHECK(v != p, "not-unique", how << " = " << showMono(m) << " is the same object as " << showMono(k));
      alive[m] = p;
      tally("new products");
    }
  };
  auto pickOne = [&]() {
    auto it = alive.begin();
    std::advance(it, rng.below(alive.size()));
    return *it;
  };
  int steps = static_cast<int>(rng.range(20, 120));
  // Powers of high degree, sometimes.
  const int limit = wide ? 400 : rng.chance(1, 12) ? static_cast<int>(rng.range(120, 700)) : 60;
  if (wide)
    for (int k = 0; k < 4; k++) {
      // a product of most of the numbers, or a small change of the previous one
      Mono m;
      static Mono last;
      if (k % 2) {
        m = last;
        m[static_cast<int>(rng.below(static_cast<uint64_t>(n)))]++;
      } else
        for (int i = 0; i < n; i++)
          if (rng.chance(3, 4)) m[i] = 1;
      last = m;
      std::vector<RealPtr> parts;
      for (auto& [v, e] : m)
        for (int i = 0; i < e; i++) parts.push_back(var[v]);
      while (parts.size() > 1) {
        std::swap(parts[rng.below(parts.size())], parts.back());
        RealPtr q = parts.back();
        parts.pop_back();
        auto& r = parts[rng.below(parts.size())];
        r = *r * *q;
      }
      if (parts.empty()) continue;
      enter(m, parts[0], "a product of many");
      if (m.size() > 32) tally("products of more than 32 numbers");
    }
  uint64_t h = hcomb(n, steps);
  for (int s = 0; s < steps; s++) {
    auto [ma, a] = pickOne();
    auto [mb, b] = pickOne();
    at("step " + str(s) + ": " + showMono(ma) + " and " + showMono(mb));
    switch (rng.below(9)) {
      case 0:
      case 1:
      case 2: {
        if (degree(ma) + degree(mb) > limit) break;
        h = hcomb(h, hstr(showMono(ma) + "*" + showMono(mb)));
        RealPtr p = *a * *b, q = *b * *a;
        CHECK(p == q, "not-unique", "product of " << showMono(ma) << " and " << showMono(mb) << " depends on the order");
        enter(times(ma, mb), p, "(" + showMono(ma) + ") * (" + showMono(mb) + ")");
        break;
      }
      case 3: {
        // square
        if (degree(ma) > limit / 2) break;
        enter(times(ma, ma), *a * *a, "(" + showMono(ma) + ")^2");
        break;
      }
      case 4:
      case 5: {
        h = hcomb(h, hstr(showMono(ma) + "/" + showMono(mb)));
        Mono q = ma;
        bool divides = true;
        for (auto& [v, e] : mb) {
          q[v] -= e;
          if (q[v] < 0) divides = false;
          if (q[v] == 0) q.erase(v);
        }
        auto got = *a / *b;
        CHECK(got.has_value() == divides, "division", showMono(ma) << " / " << showMono(mb) << " returned " << (got ? "something" : "nothing"));
        if (divides) enter(q, *got, "(" + showMono(ma) + ") / (" + showMono(mb) + ")");
        tally(divides ? "exact divisions" : "divisions that are not exact");
        break;
      }
      case 6: {
        // forget
        if (degree(ma) >= 2) alive.erase(ma), tally("products forgotten");
        break;
      }
      case 7: {
        CHECK(*a == *b ? a == b : a != b, "equality", showMono(ma) << " and " << showMono(mb));
        break;
      }
      default: {
        if (ma == mb || ma.empty() || mb.empty()) break;
        int c = degree(ma) - degree(mb);
        bool lt = a->deglex(*b), gt = b->deglex(*a);
        CHECK(lt != gt, "deglex", showMono(ma) << " and " << showMono(mb) << ": neither or both are smaller");
        if (std::max(degree(ma), degree(mb)) > 127) tally("monomials of degree more than 127 compared");
        if (c) CHECK(lt == (c < 0), "deglex", showMono(ma) << " < " << showMono(mb) << " returned " << lt << " but the degrees are " << degree(ma) << " and " << degree(mb));
        tally("monomials compared");
      }
    }
    // Evict what only the cache keeps alive.
    if (rng.chance(1, 400)) {
      std::vector<RealPtr> filler{RealNumber::random(Seed(freshSeed(rng)))};
      RealPtr p = filler[0];
      for (int k = 0; k < 1100; k++) {
        RealPtr y = RealNumber::random(Seed(freshSeed(rng)));
        p = *filler[0] * *y;
      }
      tally("caches flushed");
    }
  }
  cover(h);
  if (index < 2) sample(str(steps) + " steps on " + str(n) + " variables");
  // deglex is a strict total order compatible with multiplication
  std::vector<Mono> ms;
  for (auto& [m, p] : alive) ms.push_back(m);
  for (auto& m : ms) CHECK(!alive[m]->deglex(*alive[m]), "deglex", showMono(m) << " is smaller than itself");
  for (int k = 0; k < 60; k++) {
    const Mono &x = rng.pick(ms), &y = rng.pick(ms), &z = rng.pick(ms);
    auto lt = [&](const Mono& a, const Mono& b) { return alive[a]->deglex(*alive[b]); };
    if (x != y) CHECK(lt(x, y) != lt(y, x), "deglex", showMono(x) << " and " << showMono(y) << " are not comparable");
    if (lt(x, y) && lt(y, z)) CHECK(lt(x, z), "deglex", "not transitive on " << showMono(x) << ", " << showMono(y) << ", " << showMono(z));
    if (x.empty() && !y.empty()) CHECK(lt(x, y), "deglex", "1 is not smaller than " << showMono(y));
    if (lt(x, y) && !x.empty() && degree(y) + degree(z) < limit + 20) {
      RealPtr xz = *alive[x] * *alive[z], yz = *alive[y] * *alive[z];
      CHECK(xz->deglex(*yz) && !yz->deglex(*xz), "deglex", "multiplying " << showMono(x) << " < " << showMono(y) << " by " << showMono(z) << " changes the order");
      tally("orders preserved by multiplication");
    }
  }
  // values are products of values
  for (int k = 0; k < 3; k++) {
    auto [m, p] = pickOne();
    if (m.empty()) continue;
    Real r;
    r.x = p;
    for (auto& [v, e] : m) r.factors.push_back({&base[v], e});
    auto i = iv(p->arb(100).arb_t());
    if (!i && p->arb(100).is_finite()) continue;  // the exponents are too large for the model
    IV t = r.at(200);
    CHECK(i && i->lo <= t.lo && t.hi <= i->hi, "value", showMono(m) << " of " << r.desc() << " has value " << show(p->arb(100).arb_t()));
    tally("values of products");
  }
  // rationals
  mpq_class u = randQ(rng, 60), v = randQ(rng, 60);
  RealPtr ru = RealNumber::rational(u), rv = RealNumber::rational(v), ruv = RealNumber::rational(u * v);
  CHECK(*ru * *rv == ruv && *rv * *ru == ruv, "not-unique", "product of rationals " << u << " and " << v);
  CHECK(*one * *var[0] == var[0] && *var[0] * *one == var[0], "not-unique", "product with one");
  auto s = *ru / *ru;
  CHECK(s && *s == one, "division", u << " / " << u);
}
}  // namespace verif
