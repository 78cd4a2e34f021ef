// C19: operations that fail, because of their arguments or because there is no
// memory, leave everything as it was.
#include "faults.hpp"

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <exact-real/cereal.hpp>
#include <exact-real/yap/arb.hpp>
#include <exact-real/yap/arf.hpp>

#include "elements.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace verif {
namespace {

struct Op {
  std::string what;
  std::function<void()> run;                 // may be called again when it has failed
  std::function<void()> good = [] {};        // after it succeeded: the result is right
  std::function<void()> intact = [] {};      // after it failed: the object it works on is as it was
};

// Run this while no memory can be had from some point on.  Returns whether it failed.
struct Attempt {
  bool failed = false, fired = false;
  uintptr_t site = 0;
};
Attempt attempt(const Op& op, long n, bool persistent) {
  Attempt r;
  injector = Injector();
  injector.countdown = n;
  injector.persistent = persistent;
  std::string other;
  try {
    injector.armed = true;
    op.run();
    injector.armed = false;
  } catch (const std::bad_alloc&) {
    injector.armed = false;
    r.failed = true;
  } catch (const std::exception& e) {
    injector.armed = false;
    r.failed = true;
    other = e.what();
  }
  r.fired = injector.fired;
  r.site = injector.site;
  if (r.failed && !r.fired) fail("unexpected", op.what + " failed: " + other);
  return r;
}

const std::string refused = "operations refused because of their arguments", starved = "operations that ran out of memory";

struct Scene {
  World w;
  Rng& rng;
  std::vector<Mono> ms;
  std::vector<std::pair<Mono, std::string>> printed;
  std::vector<std::pair<size_t, long>> asked;  // approximations that have been asked for
  static constexpr long DIGITS = 1600;
  std::map<size_t, Dy> digits;  // approximations of the same numbers before they were created again
  Scene(Rng& rng) : w(rng, static_cast<int>(rng.range(1, 4)), rng.chance(2, 3)), rng(rng) {
    for (int i = 0; i < 3; i++) ms.push_back(w.randomMono(3));
    for (size_t i = 0; i < w.vars.size(); i++) {
      // what the digits are when nothing fails
      Base& b = *w.vars[i];
      if (!b.remake || rng.chance(1, 2)) continue;
      digits.emplace(i, dy(b.x->arf(DIGITS).arf_t()));
      b.x.reset();
      b.x = b.remake();
    }
    if (rng.chance(1, 3))
      for (auto& v : w.vars) (void)v->x->arf(rng.of({54L, 64L, rng.range(1, 300)}));
  }
  virtual ~Scene() = default;
  RealPtr any() { return w.real(ms[rng.below(ms.size())]); }
  // All existing objects are what they should be.
  virtual void verify(const std::string& after) {
    // Identity of numbers.
    for (auto& [m, x] : w.reals) {
      auto it = w.monos.find(x.get());
      CHECK(it != w.monos.end() && it->second == m, "identity", after << ": number " << w.name(m) << w.legend());
    }
  }
  // Values of numbers.
  void values(const std::string& after) {
    for (size_t i = 0; i < w.vars.size(); i++) {
      Base& b = *w.vars[i];
      std::vector<long> precs = {54, 64, rng.range(1, 200), rng.range(200, 500)};
      for (auto& [j, p] : asked)
        if (i == j) precs.push_back(p);
      long most = 0;
      for (long p : precs) most = std::max(most, p);
      IV truth = b.at(most + 600);
      for (long p : precs) {
        Dy a = dy(b.x->arf(p).arf_t());
        mpq_class q = a.q();
        mpq_class err = absq(q - truth.lo) > absq(q - truth.hi) ? absq(q - truth.lo) : absq(q - truth.hi);
        CHECK(err <= absq(q) * pow2(1 - p), "approximation", after << ": approximation of x" << i << " with precision " << p << " is " << a << w.legend());
      }
      if (auto d = digits.find(i); d != digits.end()) {
        const mpq_class q = d->second.q();
        CHECK(absq(q - truth.lo) <= absq(q) * pow2(-std::min(most + 500, DIGITS - 10)), "digits", after << ": the digits of x" << i << " are not what they have been before" << w.legend());
        tally("digits of numbers compared");
      }
      if (b.range) CHECK(truth.hi >= b.range->lo && truth.lo <= b.range->hi, "range", after << ": x" << i << " is not where it should be" << w.legend());
      if (b.remake) CHECK(b.remake() == b.x, "identity", after << ": x" << i << " created again is another number" << w.legend());
      tally("numbers checked");
    }
    asked.clear();
    // Products are unique.
    for (int i = 0; i < 3; i++) {
      Mono m = w.randomMono(2), n = w.randomMono(2);
      RealPtr x = w.real(m), y = w.real(n), xy = *x * *y, yx = *y * *x;
      CHECK(xy == yx && xy == w.real(m * n), "identity", after << ": product of " << w.name(m) << " and " << w.name(n) << " is not unique" << w.legend());
      auto q = *xy / *y;
      CHECK(q && *q == x, "quotient", after << ": " << w.name(m * n) << " / " << w.name(n) << w.legend());
      tally("products checked");
    }
  }
};

// Run this; it has to fail because of its arguments.
void refuse(Scene& s, const Op& op) {
  at(op.what);
  bool failed = false;
  try {
    op.run();
  } catch (const std::exception& e) {
    failed = true;
  }
  if (!failed) fail("accepted", op.what + " was not refused");
  op.intact();
  s.verify(op.what);
  tally(refused);
  cover(hcomb(4711, hstr(op.what.substr(0, op.what.find(':')))));
}

// ------------------------------------------------------------ real numbers
Op realRefusal(Scene& s) {
  World& w = s.w;
  Rng& rng = s.rng;
  Op op;
  Mono m = s.ms[rng.below(s.ms.size())];
  while (!deg(m)) m = w.randomMono(3);
  RealPtr x = w.real(m);
  mpq_class q = randQ(rng, 60);
  if (q == 0 || q == 1) q = mpq_class(5, 3);
  RealPtr r = RealNumber::rational(q);
  auto inf = [&] {
    Arf a;
    if (rng.chance(1, 3)) arf_nan(a.arf_t());
    else if (rng.chance(1, 2)) arf_pos_inf(a.arf_t());
    else arf_neg_inf(a.arf_t());
    return a;
  };
  auto out = std::make_shared<RealPtr>(x);
  op.intact = [=] { CHECK(*out == x, "identity", op.what << ": the target is another number"); };
  switch (rng.below(8)) {
    case 0:
      op.what = "product with a rational: " + w.name(m);
      op.run = rng.chance(1, 2) ? std::function<void()>([=] { *out = *x * *r; }) : [=] { *out = *r * *x; };
      break;
    case 1:
      op.what = "quotient by a rational: " + w.name(m);
      op.run = [=] { *x / *r; };
      break;
    case 2: {
      Arf a = mkArf(randDy(rng, 60, 50)), b = inf();
      if (rng.chance(1, 2)) std::swap(a, b);
      op.what = "unbounded interval: " + str(a) + ", " + str(b);
      unsigned int seed = static_cast<unsigned int>(rng.below(100));
      op.run = [=] { *out = RealNumber::random(a, b, seed); };
      break;
    }
    case 3: {
      Dy d = randDy(rng, 60, 50);
      Arf a = mkArf(d), b = rng.chance(1, 2) ? a : mkArf({d.m - 1, d.e});
      op.what = "empty interval: " + str(a) + ", " + str(b);
      op.run = [=] { *out = RealNumber::random(a, b); };
      break;
    }
    case 4: {
      double d = rng.of({HUGE_VAL, -HUGE_VAL, std::nan("")});
      op.what = "number close to infinity: " + str(d);
      op.run = [=] { *out = RealNumber::random(d); };
      break;
    }
    case 5: {
      // The archive ends too early.
      std::stringstream ss;
      {
        cereal::BinaryOutputArchive a(ss);
        a(x);
      }
      std::string text = ss.str();
      text = text.substr(0, rng.below(text.size()));
      RealPtr y = w.real(w.randomMono(2));
      *out = y;
      op.what = "truncated number: " + w.name(m) + " after " + str(text.size()) + " bytes";
      op.intact = [=] { CHECK(*out == y, "identity", op.what << ": the target is another number"); };
      op.run = [=] {
        std::istringstream is(text);
        cereal::BinaryInputArchive a(is);
        a(*out);
      };
      break;
    }
    case 6: {
      Arf a = mkArf(randDy(rng, 100, 100)), b = mkArf(randDy(rng, 100, 100));
      auto y = std::make_shared<Arf>(b);
      bool json = rng.chance(1, 2);
      std::stringstream ss;
      if (json) cereal::JSONOutputArchive{ss}(a);
      else cereal::BinaryOutputArchive{ss}(a);
      std::string text = ss.str();
      if (json && rng.chance(1, 2)) {
        size_t i = text.find("data\": \"") + 8;
        text.replace(i, text.find('"', i) - i, rng.of<std::string>({"", "xyz", "1", "q 3", "1 z"}));
      } else text = text.substr(0, rng.below(text.size() - 3));
      op.what = "malformed float: " + text;
      op.run = [=] {
        std::istringstream is(text);
        if (json) {
          cereal::JSONInputArchive ar(is);
          ar(*y);
        } else {
          cereal::BinaryInputArchive ar(is);
          ar(*y);
        }
      };
      op.intact = [=] { CHECK(arf_equal(y->arf_t(), b.arf_t()), "target", op.what << ": the target is now " << *y << ", not " << b); };
      break;
    }
    default: {
      Arb a = x->arb(rng.range(2, 200)), b = x->arb(rng.range(2, 100));
      auto y = std::make_shared<Arb>(b);
      bool json = rng.chance(1, 2);
      std::stringstream ss;
      if (json) cereal::JSONOutputArchive{ss}(a);
      else cereal::BinaryOutputArchive{ss}(a);
      std::string text = ss.str();
      if (json && rng.chance(1, 2)) {
        size_t i = text.find("data\": \"") + 8;
        text.replace(i, text.find('"', i) - i, rng.of<std::string>({"", "xyz", "1", "q 3 1 2", "1 z 1 2", "5 2 1", "5 2 1 q", "5 2 z 0"}));
      } else text = text.substr(0, rng.below(text.size() - 3));
      op.what = "malformed ball: " + text;
      op.run = [=] {
        std::istringstream is(text);
        if (json) {
          cereal::JSONInputArchive ar(is);
          ar(*y);
        } else {
          cereal::BinaryInputArchive ar(is);
          ar(*y);
        }
      };
      op.intact = [=] { CHECK(y->equal(b), "target", op.what << ": the target is now " << *y << ", not " << b); };
    }
  }
  return op;
}
Op realOp(Scene& s) {
  World& w = s.w;
  Rng& rng = s.rng;
  Mono m = s.ms[rng.below(s.ms.size())], n = rng.chance(1, 3) ? m : w.randomMono(3);
  RealPtr x = w.real(m), y = w.real(n);
  Op op;
  auto out = std::make_shared<RealPtr>();
  switch (rng.below(13)) {
    case 0:
    case 1:
    case 2:
      op.what = "product of " + w.name(m) + " and " + w.name(n);
      op.run = [=] { *out = *x * *y; };
      op.good = [=, &w] {
        CHECK(*out == *y * *x, "identity", op.what << " is not unique" << w.legend());
        CHECK(*out == w.real(m * n), "identity", op.what << " is not " << w.name(m * n) << w.legend());
      };
      break;
    case 3: {
      RealPtr p = w.real(m * n);
      auto q = std::make_shared<std::optional<RealPtr>>();
      op.what = "quotient of " + w.name(m * n) + " by " + w.name(n);
      op.run = [=] { *q = *p / *y; };
      op.good = [=, &w] { CHECK(*q && **q == w.real(m), "quotient", op.what << w.legend()); };
      break;
    }
    case 4:
    case 5: {
      size_t i = rng.below(w.vars.size());
      long prec = rng.of({54L, 64L, rng.range(1, 200), rng.range(200, 1500)});
      RealPtr z = deg(m) && rng.chance(1, 2) ? x : w.vars[i]->x;
      s.asked.push_back({i, prec});
      op.what = "approximation of " + str(*z) + " with precision " + str(prec);
      auto a = std::make_shared<Arf>();
      op.run = [=] { *a = z->arf(prec); };
      op.good = [=] { CHECK(dy(a->arf_t()) == dy(z->arf(prec).arf_t()), "approximation", op.what << " is different the second time"); };
      break;
    }
    case 6: {
      long prec = rng.range(1, 300);
      op.what = "ball for " + w.name(m);
      auto a = std::make_shared<Arb>();
      op.run = [=] { *a = x->arb(prec); };
      op.good = [=, &w] {
        IV v = w.value(m, prec + 100);
        auto i = iv(a->arb_t());
        CHECK(i && i->lo <= v.hi && v.lo <= i->hi, "ball", op.what << " does not contain it" << w.legend());
      };
      break;
    }
    case 7: {
      op.what = "double for " + w.name(m);
      auto d = std::make_shared<double>();
      op.run = [=] { *d = static_cast<double>(*x); };
      op.good = [=, &w] {
        Poly<Co<RationalField>> p(w.F);
        p.add(m, 1);
        CHECK(*d == nearestTruth(w, p), "double", op.what << " is " << *d << w.legend());
      };
      break;
    }
    case 8: {
      op.what = "comparison of " + w.name(m) + " and " + w.name(n);
      auto r = std::make_shared<std::pair<bool, bool>>();
      op.run = [=] { *r = {*x < *y, x->deglex(*y)}; };
      op.good = [=, &w] {
        Poly<Co<RationalField>> p(w.F);
        p.add(m, 1);
        p.add(n, -1);
        CHECK(r->first == (signTruth(w, p) < 0), "comparison", op.what << w.legend());
        CHECK(m == n ? !r->second : r->second != y->deglex(*x), "order", op.what << w.legend());
      };
      break;
    }
    case 9: {
      // a number that does not exist yet
      auto b = std::make_shared<Base>(randomBase(rng));
      if (!b->remake) {
        op.what = "nothing";
        op.run = [] {};
        break;
      }
      b->x = nullptr;
      op.what = "creation of " + b->desc;
      op.run = [=] { *out = b->remake(); };
      op.good = [=] {
        b->x = *out;
        CHECK(b->remake() == b->x, "identity", op.what << ": created again it is another number");
        if (b->q) CHECK(static_cast<std::optional<mpq_class>>(*b->x) == *b->q, "value", op.what);
        IV a = b->at(30), c = b->at(500);
        CHECK(a.lo <= c.hi && c.lo <= a.hi, "value", op.what << ": approximations do not fit");
        if (b->range) CHECK(c.hi >= b->range->lo && c.lo <= b->range->hi, "range", op.what << " is not where it should be");
        if (b->close) CHECK(nearest(c.lo) == *b->close || nearest(c.hi) == *b->close || *b->close == 0, "range", op.what << " is not close to the double");
      };
      break;
    }
    case 10: {
      op.what = "printing " + w.name(m);
      auto os = std::make_shared<std::ostringstream>();
      op.run = [=] {
        *os = std::ostringstream();
        *os << *x;
        if (!*os) throw std::runtime_error("the stream failed");
      };
      op.good = [=] { CHECK(os->str() == str(*x), "printed", op.what << " is " << os->str() << ", later " << str(*x)); };
      break;
    }
    case 11: {
      mpq_class q = randQ(rng, 80);
      op.what = "comparison of " + w.name(m) + " with " + str(q);
      auto r = std::make_shared<std::pair<bool, bool>>();
      op.run = [=] { *r = {*x < q, *x > q}; };
      op.good = [=, &w] {
        Poly<Co<RationalField>> p(w.F);
        p.add(m, 1);
        p.add(w.one(), -q);
        int sgn = signTruth(w, p);
        CHECK(r->first == (sgn < 0) && r->second == (sgn > 0), "comparison", op.what << w.legend());
      };
      break;
    }
    default: {
      long prec = rng.range(2, 300);
      op.what = "refining a ball for " + w.name(m);
      auto a = std::make_shared<Arb>(x->arb(rng.range(1, 60)));
      op.run = [=] { x->refine(*a, prec); };
      auto check = [=, &w] {
        IV v = w.value(m, prec + 100);
        auto i = iv(a->arb_t());
        CHECK(i && i->lo <= v.hi && v.lo <= i->hi, "ball", op.what << " does not contain it" << w.legend());
      };
      op.good = op.intact = check;
    }
  }
  return op;
}

// ---------------------------------------------------------------- elements
template <typename R>
struct ElementScene : Scene {
  using C = Co<R>;
  Elements<R> E;
  Elem<R> a, b;
  ElementScene(Rng& rng) : Scene(rng), E(w, this->rng), a(E.random(E.randomBasis(3, 2))), b(rng.chance(1, 5) ? a : E.random(E.randomBasis(3, 2))) {}
  void verify(const std::string& after) override {
    Scene::verify(after);
    E.verify(a, "after " + after + ", an operand");
    E.verify(b, "after " + after + ", an operand");
    for (const Elem<R>* x : {&a, &b}) {
      typename Module<R>::Basis basis(x->e.module()->basis().rbegin(), x->e.module()->basis().rend());
      CHECK(Module<R>::make(basis, x->e.module()->ring()) == x->e.module(), "identity", after << ": module created again is another module");
    }
    tally("scenes checked");
  }
  // A change of x in place.
  Op inPlace(const std::string& what, std::function<void(Element<R>&)> f, Poly<C> expected) {
    Op op;
    auto x = std::make_shared<Elem<R>>(a);
    op.what = what + " of " + E.show(a) + " and " + E.show(b);
    op.run = [=] { f(x->e); };
    op.intact = [=, this] { E.verify(*x, "after a failed " + op.what + ", it", false); };
    op.good = [=, this] {
      Elem<R> y{x->e, expected, {}};
      E.verify(y, op.what, false);
      x->e = a.e;
    };
    return op;
  }
  Op value(const std::string& what, std::function<Element<R>()> f, Poly<C> expected) {
    Op op;
    auto x = std::make_shared<std::optional<Element<R>>>();
    op.what = what + " of " + E.show(a) + " and " + E.show(b);
    op.run = [=] { *x = f(); };
    op.good = [=, this] {
      Elem<R> y{**x, expected, {}};
      E.verify(y, op.what, false);
    };
    return op;
  }
  template <typename T>
  Op answer(const std::string& what, std::function<T()> f, std::function<bool(const T&)> right) {
    Op op;
    auto x = std::make_shared<std::optional<T>>();
    op.what = what + " of " + E.show(a) + " and " + E.show(b);
    op.run = [=] { *x = f(); };
    op.good = [=] { CHECK(right(**x), "answer", op.what); };
    return op;
  }
  // A change of x in place that is refused.
  Op never(const std::string& what, const Elem<R>& x, std::function<void(Element<R>&)> f) {
    Op op;
    auto y = std::make_shared<Elem<R>>(x);
    op.what = what + ": " + E.show(x);
    op.run = [=] { f(y->e); };
    op.intact = [=, this] {
      CHECK(y->e.module() == x.e.module(), "identity", op.what << ": it is in another module");
      E.verify(*y, "after the refused " + op.what + ", it");
    };
    return op;
  }
  Elem<R> nonzero(const Elem<R>& x) {
    if (!x.p.zero()) return x;
    auto basis = E.randomBasis(3, 2);
    if (basis.empty()) basis.push_back(w.one());
    Poly<C> p(w.F);
    for (auto& m : basis) p.add(m, C::of(w.F, rng.range(1, 99)));
    return E.build(basis, p);
  }
  Op refusal() {
    if constexpr (std::is_same_v<R, NumberField>)
      if (rng.chance(1, 4)) {
        // another field
        const Field* G = &Field::any(rng);
        while (G == w.F || *G->K == *w.F->K) G = &Field::any(rng);
        if (G->degree() < 2 || w.F->degree() < 2) return never("coercion of an irrational number", nonzero(a), [](auto&) { throw std::logic_error("not applicable"); });
        Elem<R> x = nonzero(a);
        if (x.e.module()->ring() != NumberField(w.F->K)) return never("not applicable", x, [](auto&) { throw std::logic_error("not applicable"); });
        auto other = Module<R>::make(b.e.module()->basis(), NumberField(G->K));
        if (!other->rank()) other = Module<R>::make({RealNumber::rational(1)}, NumberField(G->K));
        Element<R> y(other, std::vector<eantic::renf_elem_class>(static_cast<size_t>(other->rank()), G->K->gen()));
        switch (rng.below(5)) {
          case 0: return never("sum over different fields", x, [=](auto& z) { z += y; });
          case 1: return never("product over different fields", x, [=](auto& z) { z *= y; });
          case 2: return never("difference over different fields", x, [=](auto& z) { z -= y; });
          case 3: return never("span over different fields", x, [=](auto& z) { z.promote(Module<R>::span(z.module(), other)); });
          default: return never("coercion into another field", x, [=, this](auto& z) { z *= NumberField(w.F->K).coerce(G->K->gen()); });
        }
      }
    switch (rng.below(12)) {
      case 0: {
        Elem<R> x = nonzero(rng.chance(1, 2) ? a : b);
        std::function<void(Element<R>&)> f;
        switch (rng.below(11)) {
          case 0: f = [](auto& y) { y /= static_cast<short>(0); }; break;
          case 1: f = [](auto& y) { y /= static_cast<unsigned short>(0); }; break;
          case 2: f = [](auto& y) { y /= 0; }; break;
          case 3: f = [](auto& y) { y /= 0u; }; break;
          case 4: f = [](auto& y) { y /= 0l; }; break;
          case 5: f = [](auto& y) { y /= 0ul; }; break;
          case 6: f = [](auto& y) { y /= 0ll; }; break;
          case 7: f = [](auto& y) { y /= 0ull; }; break;
          case 8: f = [](auto& y) { y /= mpz_class(0); }; break;
          case 9: f = [](auto& y) { y /= mpq_class(0); }; break;
          default: f = [this](auto& y) { y /= C::lib(C::of(w.F, 0)); };
        }
        return never("division by zero", x, f);
      }
      case 1:
      case 2:
      case 3:
        if constexpr (std::is_same_v<R, IntegerRing>) {
          // Not all coefficients are divisible.
          Elem<R> x = nonzero(rng.chance(1, 2) ? a : b);
          mpz_class k = rng.chance(1, 2) ? mpz_class(rng.range(2, 9)) : mpz_class(randInt(rng, 70));
          if (rng.chance(1, 2)) {
            // Some of them are.
            Poly<C> p(w.F);
            for (auto& [m, c] : x.p.t) p.add(m, rng.chance(1, 2) ? mpz_class(c * k) : c);
            x = E.build(x.basis, p);
          }
          if (rng.chance(1, 3)) {
            mpq_class q(randInt(rng, 20), k == 0 ? mpz_class(7) : k);
            q.canonicalize();
            bool ok = q == 0;
            for (auto& [m, c] : x.p.t) ok = ok || mpq_class(c * q).get_den() != 1;
            if (ok && q != 0) return never("product with a fraction", x, [=](auto& y) { y *= q; });
          } else if (rng.chance(1, 3)) {
            mpq_class q(k, mpz_class(randInt(rng, 20) | 1));
            q.canonicalize();
            bool ok = q == 0;
            if (!ok)
              for (auto& [m, c] : x.p.t) ok = ok || mpq_class(c / q).get_den() != 1;
            if (ok) return never("quotient by a fraction", x, [=](auto& y) { y /= q; });
          }
          bool ok = k == 0;
          if (!ok)
            for (auto& [m, c] : x.p.t) ok = ok || c % k != 0;
          if (ok) {
            if (k.fits_sint_p()) {
              int i = static_cast<int>(k.get_si());
              switch (rng.below(3)) {
                case 0: return never("quotient by an integer", x, [=](auto& y) { y /= i; });
                case 1: return never("quotient by an integer", x, [=](auto& y) { y /= static_cast<long long>(i); });
                default:
                  if (i > 0 && i < 60000) return never("quotient by an integer", x, [=](auto& y) { y /= static_cast<unsigned short>(i); });
              }
            }
            return never("quotient by an integer", x, [=](auto& y) { y /= k; });
          }
        }
        [[fallthrough]];
      case 4: {
        auto z = rng.chance(1, 2) ? b.e.module()->zero() : Element<R>();
        if (rng.chance(1, 2)) return never("exact division by zero", a, [=](auto& y) { y.truediv(z); });
        return never("rounded division by zero", a, [=](auto& y) { y.floordiv(z); });
      }
      case 5:
      case 6: {
        // Promotion to a module that lacks something.
        Elem<R> x = nonzero(rng.chance(1, 2) ? a : b);
        std::set<Mono> g;
        for (auto& m : E.randomBasis(3, 2)) g.insert(m);
        for (auto& m : x.basis) g.insert(m);
        auto it = x.p.t.begin();
        std::advance(it, static_cast<long>(rng.below(x.p.t.size())));
        g.erase(it->first);
        for (auto& m : x.basis)
          if (rng.chance(1, 4)) g.erase(m);
        auto M = E.module({g.begin(), g.end()});
        return never("promotion to too small a module", x, [=](auto& y) { y.promote(M); });
      }
      case 7: {
        auto basis = E.randomBasis(4, 2);
        basis.push_back(rng.chance(1, 2) || basis.empty() ? w.randomMono(2) : basis[rng.below(basis.size())]);
        basis.push_back(basis[rng.below(basis.size())]);
        typename Module<R>::Basis g;
        for (auto& m : basis) g.push_back(w.real(m));
        for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[rng.below(i)]);
        auto K = C::ring(w.F);
        return never("module with a generator twice", a, [=](auto&) { Module<R>::make(g, K); });
      }
      case 8: {
        typename Module<R>::Basis g;
        for (auto& m : E.randomBasis(4, 2))
          if (deg(m)) g.push_back(w.real(m));
        g.push_back(RealNumber::rational(mpq_class(rng.range(-5, 5), 7)));
        g.push_back(RealNumber::rational(rng.range(6, 50)));
        for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[rng.below(i)]);
        auto K = C::ring(w.F);
        return never("module with two rational generators", a, [=](auto&) { Module<R>::make(g, K); });
      }
      case 9: {
        std::vector<Mono> g;
        for (auto& m : E.randomBasis(4, 2))
          if (deg(m)) g.push_back(m);
        auto M = E.module(g);
        return never("one in a module without it", a, [=](auto&) { M->one(); });
      }
      case 10: {
        long i = rng.chance(1, 3) ? -1 : static_cast<long>(a.basis.size()) + rng.range(0, 3);
        return never("coefficient that does not exist", a, [=](auto& y) { y[i]; });
      }
      default: {
        // The archive ends too early.
        std::stringstream ss;
        {
          cereal::BinaryOutputArchive ar(ss);
          ar(b.e);
        }
        std::string text = ss.str();
        text = text.substr(0, rng.below(text.size()));
        if constexpr (!std::is_same_v<R, NumberField>)
          if (rng.chance(1, 3)) {
            std::stringstream js;
            {
              cereal::JSONOutputArchive ar(js);
              ar(b.e);
            }
            text = js.str();
            size_t i = text.rfind('[');
            if (i != std::string::npos) {
              text.insert(i + 1, b.basis.empty() ? "\"5\"" : "\"5\", ");
              return never("element with too many coefficients", a, [=](auto& y) {
                std::istringstream is(text);
                cereal::JSONInputArchive ar(is);
                ar(y);
              });
            }
          }
        return never("truncated element", a, [=](auto& y) {
          std::istringstream is(text);
          cereal::BinaryInputArchive ar(is);
          ar(y);
        });
      }
    }
  }
  Op random() {
    switch (rng.below(22)) {
      case 0:
      case 1: return inPlace("sum", [this](auto& x) { x += b.e; }, a.p + b.p);
      case 2: return inPlace("difference", [this](auto& x) { x -= b.e; }, a.p - b.p);
      case 3:
      case 4: return inPlace("product", [this](auto& x) { x *= b.e; }, a.p * b.p);
      case 5: {
        Mono m = ms[rng.below(ms.size())];
        RealPtr x = w.real(m);
        Poly<C> p(w.F);
        p.add(m, C::of(w.F, 1));
        return inPlace("multiple", [x](auto& y) { y *= *x; }, a.p * p);
      }
      case 6: {
        mpz_class k = randInt(rng, 100);
        return inPlace("multiple by an integer", [k](auto& x) { x *= k; }, a.p.scaled(C::of(w.F, k)));
      }
      case 7: return inPlace("promotion", [this](auto& x) { x.promote(Module<R>::span(x.module(), b.e.module())); }, a.p);
      case 8: return inPlace("simplification", [](auto& x) { x.simplify(); }, a.p);
      case 9: return inPlace("sum with itself", [](auto& x) { x += x; }, a.p + a.p);
      case 10: return inPlace("square", [](auto& x) { x *= x; }, a.p * a.p);
      case 11: return inPlace("assignment", [this](auto& x) { x = b.e; }, b.p);
      case 12: return value("negative", [this] { return -a.e; }, -a.p);
      case 13: return value("copy", [this] { return Element<R>(b.e); }, b.p);
      case 14: {
        // exact division
        if (b.p.zero()) return value("sum", [this] { return a.e + b.e; }, a.p + b.p);
        Elem<R> ab = E.of(a.p * b.p);
        return value("quotient", [=, this] { return *ab.e.truediv(b.e); }, a.p);
      }
      case 15: {
        if (b.p.zero()) return value("sum", [this] { return a.e + b.e; }, a.p + b.p);
        if (!quotient(a.p, b.p)) return answer<bool>("refused division", [this] { return !a.e.truediv(b.e); }, [](const bool& x) { return x; });
        return value("quotient", [=, this] { return *a.e.truediv(b.e); }, *quotient(a.p, b.p));
      }
      case 16: return answer<mpz_class>("floor", [this] { return a.e.floor(); }, [this](const mpz_class& x) { return x == floorTruth(w, a.p); });
      case 17: return answer<double>("double", [this] { return static_cast<double>(a.e); }, [this](const double& x) { return x == nearestTruth(w, a.p); });
      case 18: return answer<bool>("comparison", [this] { return a.e < b.e; }, [this](const bool& x) { return x == (signTruth(w, a.p - b.p) < 0); });
      case 19: return answer<bool>("equality", [this] { return a.e == b.e; }, [this](const bool& x) { return x == (a.p == b.p); });
      case 20:
        return answer<std::string>("printing", [this] {
          std::ostringstream os;
          os << a.e;
          if (!os) throw std::runtime_error("the stream failed");
          return os.str(); }, [this](const std::string& x) { return x == str(a.e); });
      default: {
        // modules
        auto basis = E.randomBasis(4, 2);
        typename Module<R>::Basis g;
        for (auto& m : basis) g.push_back(w.real(m));
        auto K = C::ring(w.F);
        auto M = std::make_shared<std::shared_ptr<const Module<R>>>();
        Op op;
        op.what = "creation of a module";
        op.run = [=, this] { *M = Module<R>::span(Module<R>::make(g, K), a.e.module()); };
        op.good = [=, this] {
          Poly<C> p(w.F);
          E.verify({(*M)->zero(), p, unite(basis, a.basis)}, op.what);
          auto h = g;
          for (auto& m : a.basis)
            if (std::find(basis.begin(), basis.end(), m) == basis.end()) h.push_back(w.real(m));
          std::reverse(h.begin(), h.end());
          // (Without generators of its own over K, the module is the other one, over its own ring.)
          CHECK(Module<R>::make(h, basis.empty() ? a.e.module()->ring() : K) == *M, "identity", op.what << ": created again it is another module");
        };
        return op;
      }
    }
  }
};

// --------------------------------------------------------- serialization
template <typename T, typename Same>
Op roundTrip(const std::string& what, const T& x, bool json, std::shared_ptr<T> target, Same same) {
  Op op;
  op.what = std::string("saving and restoring ") + what;
  auto out = std::make_shared<std::optional<T>>();
  std::string text;
  if (json) {
    // (cereal's writer for JSON terminates when something throws while it is being used.)
    std::ostringstream s;
    {
      cereal::JSONOutputArchive a(s);
      a(x);
    }
    text = s.str();
  }
  op.run = [=] {
    T y = *target;
    if (json) {
      std::istringstream s(text);
      cereal::JSONInputArchive a(s);
      a(y);
    } else {
      std::stringstream s;
      {
        cereal::BinaryOutputArchive a(s);
        a(x);
      }
      if (!s) throw std::runtime_error("the stream failed");
      cereal::BinaryInputArchive a(s);
      a(y);
    }
    *out = std::move(y);
  };
  op.good = [=] { CHECK(same(**out, x), "restored", op.what); };
  return op;
}

// ------------------------------------------------------------------- driver
void exercise(Scene& s, const Op& op, int kind, Rng& rng) {
  at(op.what);
  long n = rng.chance(1, 6) ? static_cast<long>(rng.below(40)) : 0;
  for (int tries = 0; tries < 90; tries++) {
    bool persistent = rng.chance(1, 3);
    Attempt r = attempt(op, n, persistent);
    if (r.fired) {
      cover(hcomb(hcomb(static_cast<uint64_t>(kind), hstr(op.what.substr(0, op.what.find(' ')))), r.site));
      tally(r.failed ? starved : "operations that did without the memory");
    }
    std::string after = op.what + " without memory";
    if (!r.failed) {
      op.good();
      s.verify(op.what);
      tally("retries that succeeded");
      if (!r.fired) break;
    } else {
      op.intact();
      s.verify(after);
      if (rng.chance(1, 12)) {
        // Whatever had been allocated until then has been given back.
        size_t before = 0;
        bool leak = true;
        Attempt q = r;
        for (int i = 0; i < 3 && q.failed; i++) q = attempt(op, n, persistent);
        size_t first = before = __sanitizer_get_current_allocated_bytes();
        for (int i = 0; i < 40 && leak && q.failed; i++) {
          q = attempt(op, n, persistent);
          size_t now = __sanitizer_get_current_allocated_bytes();
          leak = now > before;
          before = now;
        }
        // (FLINT keeps the space of the integers it works with for later, so the space in use can grow for a while.)
        for (int i = 0; i < 10 && leak && q.failed; i++) {
          for (int j = 0; j < 100 && q.failed; j++) q = attempt(op, n, persistent);
          size_t now = __sanitizer_get_current_allocated_bytes();
          leak = now >= before + 800;
          if (i == 0) first = before;
          before = now;
        }
        if (leak && q.failed) fail("leak", op.what + " without memory leaks " + str((before - first) / 1000) + " bytes");
        tally("failures repeated");
        if (!q.failed) op.good();
      }
    }
    n += n < 30 ? 1 : rng.range(1, 20);
  }
}

template <typename R>
void elementsCase(Rng& rng, int kind) {
  ElementScene<R> s(rng);
  int n = static_cast<int>(rng.range(1, 3));
  for (int i = 0; i < n; i++) {
    if (rng.chance(1, 8)) {
      bool json = rng.chance(1, 2);
      if (rng.chance(1, 2)) {
        Element<R> x = s.a.e;
        exercise(s, roundTrip("an element", x, json, std::make_shared<Element<R>>(s.b.e), [](auto& y, auto& z) { return y == z && y.module() == z.module(); }), 50, rng);
      } else {
        auto M = s.a.e.module();
        exercise(s, roundTrip("a module", M, json, std::make_shared<std::shared_ptr<const Module<R>>>(s.b.e.module()), [](auto& y, auto& z) { return y == z; }), 51, rng);
      }
    } else exercise(s, s.random(), kind, rng);
    for (int j = 0; j < 3; j++) {
      refuse(s, s.refusal());
      if (rng.chance(1, 3)) refuse(s, realRefusal(s));
    }
  }
  s.values("operations without memory");
  s.verify("operations without memory");
}
void realsCase(Rng& rng) {
  Scene s(rng);
  int n = static_cast<int>(rng.range(1, 4));
  for (int i = 0; i < n; i++) {
    if (rng.chance(1, 8)) {
      bool json = rng.chance(1, 2);
      switch (rng.below(3)) {
        case 0: exercise(s, roundTrip("a number", s.any(), json, std::make_shared<RealPtr>(), [](auto& y, auto& z) { return y == z; }), 60, rng); break;
        case 1: exercise(s, roundTrip("a float", mkArf(randDy(rng, 200, 200)), json, std::make_shared<Arf>(3), [](auto& y, auto& z) { return y == z; }), 61, rng); break;
        default: exercise(s, roundTrip("a ball", s.any()->arb(rng.range(2, 300)), json, std::make_shared<Arb>(3), [](auto& y, auto& z) { return y.equal(z); }), 62, rng);
      }
    } else exercise(s, realOp(s), 1, rng);
    refuse(s, realRefusal(s));
  }
  s.values("operations without memory");
}

PROPERTY(C19) {
  switch (rng.below(5)) {
    case 0:
    case 1: realsCase(rng); break;
    case 2: elementsCase<IntegerRing>(rng, 2); break;
    case 3: elementsCase<RationalField>(rng, 3); break;
    default: elementsCase<NumberField>(rng, 4);
  }
}
}  // namespace
}  // namespace verif
