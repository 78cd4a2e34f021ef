// C16
#include "elements.hpp"

namespace verif {
namespace {

template <typename R, typename S>
void coercion(Elements<R>& E, const Elem<R>& x) {
  World& w = E.w;
  Element<S> y(x.e);
  std::string what = "coercion of " + E.show(x) + " to " + Co<S>::name + w.legend();
  auto M = y.module();
  auto N = x.e.module();
  CHECK(M->basis() == N->basis(), "coercion", what << ": the generators changed to " << *M);
  for (exactreal::size i = 0; i < N->rank(); i++) {
    auto a = Co<R>::rational(*Co<R>::read(w.F, x.e[i]));
    auto b = Co<S>::read(w.F, y[i]);
    CHECK(b && Co<S>::rational(*b) && Co<S>::rational(*b) == a, "coercion", what << ": coefficient " << i << " is " << y[i]);
  }
  tally("coercions");
}
template <typename R>
void representations(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 4)));
  w.rationalGenerator(rng);
  Elements<R> E(w, rng);
  for (int rep = 0; rep < 3; rep++) {
    Elem<R> x = E.random(E.randomBasis(4, 3, 90), 60);
    if (rng.chance(1, 3)) {
      // only a rational (maybe)
      Poly<C> p(w.F);
      p.add(w.one(), rng.chance(1, 2) ? C::of(w.F, rng.range(-9, 9)) : C::random(w.F, rng, 60));
      x = E.build(unite(x.basis, {w.one()}), p);
    }
    const std::string d = E.show(x) + w.legend();
    at("representations of " + d);
    E.verify(x, "an element that");
    // promotion
    {
      auto bigger = unite(x.basis, E.randomBasis(3, 3, 60));
      auto M = E.module(bigger);
      Element<R> y = x.e;
      if (rng.chance(1, 4)) E.touch(y);
      auto& ret = y.promote(M);
      CHECK(&ret == &y && y.module() == M, "promote", d << " promoted to " << *M);
      E.verify({y, x.p, bigger}, "promotion of " + E.show(x));
      CHECK(y == x.e, "promote", d << " is not equal to its promotion");
      // and back
      y.promote(x.e.module());
      E.verify({y, x.p, x.basis}, "promotion of " + E.show(x) + " and back");
      if (rng.chance(1, 6)) E.consistent({y, x.p, x.basis}, "promotion of " + E.show(x) + " and back");
      tally("promotions");
      // drop unused generators
      std::vector<Mono> needed;
      std::set<Mono> other;
      for (auto& [m, c] : x.p.t) needed.push_back(m), other.insert(m);
      for (auto& m : E.randomBasis(2, 2)) other.insert(m);
      std::vector<Mono> ob(other.begin(), other.end());
      Element<R> z = x.e;
      z.promote(E.module(ob));
      E.verify({z, x.p, ob}, "promotion of " + E.show(x) + " to another module");
      // a generator that cannot be dropped
      if (!needed.empty()) {
        other.erase(needed[rng.below(needed.size())]);
        auto N = E.module({other.begin(), other.end()});
        bool threw = false;
        Element<R> u = x.e;
        try {
          u.promote(N);
        } catch (const std::exception&) {
          threw = true;
        }
        CHECK(threw, "promote", d << " promoted to " << *N << " became " << u);
        tally("impossible promotions rejected");
      }
      Element<R> s = x.e;
      auto& ref = s.simplify();
      CHECK(&ref == &s, "simplify", d);
      E.verify({s, x.p, needed}, "simplification of " + E.show(x));
      if (rng.chance(1, 6)) E.consistent({s, x.p, needed}, "simplification of " + E.show(x));
      tally("simplifications");
    }
    // coefficients over Q
    {
      std::vector<mpq_class> expected;
      for (auto& g : x.e.module()->basis())
        for (auto& q : C::flat(x.p[w.monos.at(g.get())])) {
          expected.push_back(q);
          if (w.mixed && x.e.module()->ring() != C::ring(w.F)) break;  // of degree 1
        }
      auto got = x.e.rationalCoefficients();
      CHECK(got == expected, "rationalCoefficients", d << ": " << got.size() << " coefficients instead of " << expected.size() << " or with different values");
      for (auto& q : got) {
        mpq_class c = q;
        c.canonicalize();
        CHECK(c.get_den() == q.get_den(), "rationalCoefficients", d << ": not in lowest terms");
      }
      tally("lists of rational coefficients");
    }
    // rationals
    {
      auto q = rationalTruth(w, x.p);
      auto got = static_cast<std::optional<mpq_class>>(x.e);
      CHECK(got == q, "rational", d << " as a rational is " << (got ? got->get_str() : "nothing"));
      auto z = static_cast<std::optional<mpz_class>>(x.e);
      CHECK(z.has_value() == (q && q->get_den() == 1) && (!z || *z == q->get_num()), "integer", d << " as an integer is " << (z ? z->get_str() : "nothing"));
      tally(z ? "integers" : q ? "rationals" : "not rationals");
    }
    // units: a single rational term
    {
      bool unit = false;
      if (x.p.t.size() == 1 && deg(x.p.t.begin()->first) == 0) {
        if constexpr (std::is_same_v<R, IntegerRing>) unit = mpq_class(1 / (x.p.t.begin()->second * w.constant * w.constant)).get_den() == 1;
        else unit = true;
      }
      CHECK(x.e.unit() == unit, "unit", d << " unit() is " << x.e.unit());
      tally(unit ? "units" : "not units");
    }
    // printing shows all the terms
    {
      std::string s = str(x.e);
      size_t len = 0, plus = 0;
      for (auto& [m, c] : x.p.t) {
        bool negative = C::sgn(c) < 0;
        auto a = negative ? -c : c;
        std::string g = str(*w.real(m)), t = str(C::lib(a));
        if (a == C::of(w.F, 1)) t = g;
        else if (deg(m) || w.constant != 1) t += "*" + g;
        CHECK(s.find(t) != std::string::npos, "print", d << " is printed as " << s << " without the term " << t);
        len += t.size() + 3;
        if (!negative) plus++;
      }
      if (x.p.zero()) CHECK(s == "0", "print", d << " is printed as " << s);
      else CHECK(s.size() == len - 3 + (plus ? 0 : 1), "print", d << " is printed as " << s);
      tally("elements printed");
    }
    if constexpr (std::is_same_v<R, IntegerRing>) {
      coercion<R, RationalField>(E, x);
      coercion<R, NumberField>(E, x);
    }
    if constexpr (std::is_same_v<R, RationalField>) coercion<R, NumberField>(E, x);
    cover(E.hash(x));
    if (index < 3 && rep == 0) sample(E.show(x));
  }
  // constants
  if (w.constant == 1) {
    auto c = C::random(w.F, rng, 60);
    Element<R> e(C::lib(c));
    Poly<C> p(w.F);
    p.add(w.one(), c);
    E.verify({e, p, {w.one()}}, "Element(" + str(c) + ")");
    Element<R> z;
    E.verify({z, Poly<C>(w.F), {}}, "Element()");
    tally("constants");
    // a constant fits everywhere
    Elem<R> x = E.random(E.randomBasis(3, 2), 60);
    E.verify({x.e + e, x.p + p, unite(x.basis, {w.one()})}, "sum of an element and a constant");
  }
  // mixing a number field with rationals
  if constexpr (std::is_same_v<R, NumberField>) {
    Elements<RationalField> Q(w, rng);
    auto q = Q.random(Q.randomBasis(3, 2), 60);
    auto x = E.random(E.randomBasis(3, 2), 40);
    at("mixing " + E.show(x) + " and " + Q.show(q) + w.legend());
    Element<NumberField> y(q.e);
    Poly<C> p(w.F);
    for (auto& [m, c] : q.p.t) p.add(m, C::of(w.F, c));
    auto s = rng.chance(1, 2) ? x.e + y : y + x.e;
    E.verify({s, x.p + p, unite(x.basis, q.basis)}, "sum of " + E.show(x) + " and " + Q.show(q), true, !x.basis.empty());
    if (w.constant == 1) {
      auto t = rng.chance(1, 2) ? x.e * y : y * x.e;
      E.verify({t, x.p * p, products(x.basis, q.basis)}, "product of " + E.show(x) + " and " + Q.show(q), false);
    }
    CHECK((x.e == y) == (x.p == p), "mixed", "comparison of " << E.show(x) << " and " << Q.show(q));
    tally("elements over different fields combined");
  }
  // rational generators other than 1
  {
    mpq_class g = rng.chance(1, 2) ? mpq_class(rng.of({1, -1}), rng.range(1, 9)) : randQ(rng, 20);
    g.canonicalize();
    if (g != 0) {
      mpz_class n = rng.chance(1, 2) ? mpz_class(rng.range(-9, 9)) : mpz_class(g.get_den() * rng.range(-3, 3));
      typename Module<R>::Basis b{RealNumber::rational(g)};
      if (rng.chance(1, 2)) b.push_back(w.real(w.var(0)));
      typename Module<R>::Basis::value_type x0 = b[0];
      auto M = Module<R>::make(b);
      auto i = M->basis()[0] == x0 ? 0 : 1;
      auto e = n * M->gen(i);
      mpq_class v = mpq_class(n) * g;
      std::string d = str(n) + " times the generator of " + str(*M);
      at(d);
      auto got = static_cast<std::optional<mpq_class>>(e);
      CHECK(got && *got == v, "rational", d << " is " << (got ? got->get_str() : "nothing"));
      CHECK(e == v && !(e != v) && !(e < v) && !(e > v) && e == e, "comparison", d << " and " << v);
      CHECK(e.floor() == floorQ(v) && e.ceil() == ceilQ(v), "floor", d << " has floor " << e.floor() << " and ceiling " << e.ceil());
      CHECK(static_cast<double>(e) == nearest(v), "double", d);
      Element<R> inverse;
      bool unit = v != 0;
      if (std::is_same_v<R, IntegerRing> && unit) unit = mpq_class(1 / v / g).get_den() == 1;
      CHECK(e.unit() == unit, "unit", d << " unit() is " << e.unit());
      tally("rational generators");
    }
  }
}
PROPERTY(C16) {
  anyRing(rng, [&](auto* tag) { representations<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
