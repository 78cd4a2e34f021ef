// C13
#include "elements.hpp"

namespace verif {
namespace {

template <typename R>
void division(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 3)));
  w.rationalGenerator(rng);
  Elements<R> E(w, rng);
  const bool isZ = std::is_same_v<R, IntegerRing>;
  for (int rep = w.constant == 1 ? 0 : 3; rep < 3; rep++) {
    Elem<R> b = E.random(E.randomBasis(3, 2), 30), c = E.random(E.randomBasis(3, 2), 30);
    if (b.p.t.size() > 4 || c.p.t.size() > (w.scale == World::Scale::TERMS ? 24 : 4)) continue;
    if (c.p.t.size() > 8) tally("quotients of many terms");
    Poly<C> p = b.p * c.p;
    switch (rng.below(8)) {
      case 0: p = E.random(E.randomBasis(3, 3), 30).p; break;
      case 1: p.add(w.randomMono(3), C::of(w.F, rng.range(-2, 2))); break;
      case 2:
        if (!p.zero()) {
          auto it = p.t.begin();
          std::advance(it, rng.below(p.t.size()));
          p.add(it->first, C::of(w.F, rng.of({1, -1})));
        }
        break;
      default:;
    }
    Elem<R> a = E.of(p, rng.chance(1, 3));
    std::string what = E.show(a) + ".truediv(" + E.show(b) + ")";
    at(what + w.legend());
    if (b.p.zero()) {
      must_throw<std::invalid_argument>("division-by-zero", [&] { (void)a.e.truediv(b.e); }, what);
      continue;
    }
    auto expected = quotient(a.p, b.p);
    auto got = a.e.truediv(b.e);
    CHECK(got.has_value() == expected.has_value(), "truediv", what << w.legend() << (got ? " is " + str(*got) + " but the quotient is not exact" : " is empty but the quotient is " + E.show(*expected)));
    if (got) {
      E.verify({*got, *expected, {}}, what, false);
      CHECK(*got * b.e == a.e, "truediv", what << ": quotient times divisor is not the dividend");
      tally("exact quotients");
      if (expected->t.size() > 1 && b.p.t.size() > 1) tally("exact quotients of several terms by several terms");
    } else tally("divisions with a remainder");
    E.verify(a, "dividend of " + what);
    E.verify(b, "divisor of " + what);
    if (index < 3 && rep == 0) sample(what);
    cover(hcomb(E.hash(a), E.hash(b)));
  }
  // floor of the quotient
  for (int rep = 0; rep < 3; rep++) {
    Elem<R> b = E.random(E.randomBasis(2, 2), 40);
    Poly<C> p(w.F);
    mpz_class n = rng.chance(1, 2) ? mpz_class(rng.range(-6, 6)) : randInt(rng, 80);
    int kind = static_cast<int>(rng.below(7));
    switch (kind) {
      case 0: p = E.random(E.randomBasis(2, 2), 40).p; break;
      case 1: p = b.p.scaled(C::of(w.F, n)); break;  // exact
      case 2:  // close to exact
        p = b.p.scaled(C::of(w.F, n));
        p.add(w.randomMono(2), C::of(w.F, isZ ? mpq_class(rng.of({1, -1})) : mpq_class(mpq_class(rng.of({1, -1})) * pow2(-rng.range(1, rng.chance(1, 30) ? 9000 : 150)))));
        break;
      case 3:  // proportional
        if constexpr (std::is_same_v<R, IntegerRing>) {
          mpz_class d = rng.range(2, 9);
          p = b.p.scaled(n);
          b = E.of(b.p.scaled(d));
        } else p = b.p.scaled(C::random(w.F, rng, 40));
        break;
      case 4:
        // multiples in all terms but one
        p = b.p.scaled(C::of(w.F, n));
        if (!p.zero()) p.add(p.t.begin()->first, C::of(w.F, rng.of({1, -1})));
        break;
      case 5:
        // rationals or integers
        p.add(w.one(), C::random(w.F, rng, 60));
        b = E.of([&] {
          Poly<C> q(w.F);
          q.add(w.one(), C::random(w.F, rng, 30));
          return q;
        }());
        break;
      default:
        // some terms only in one of the two
        p = b.p.scaled(C::of(w.F, n));
        if (!p.zero()) p.t.erase(p.t.begin());
    }
    Elem<R> a = E.of(p, rng.chance(1, 3));
    std::string what = E.show(a) + ".floordiv(" + E.show(b) + ")";
    at(what + w.legend());
    if (b.p.zero()) {
      must_throw<std::invalid_argument>("division-by-zero", [&] { (void)a.e.floordiv(b.e); }, what);
      continue;
    }
    mpz_class expected;
    // The quotient is an integer exactly if the elements are proportional.
    std::optional<mpz_class> exact;
    if (a.p.zero()) exact = 0;
    else {
      std::optional<mpq_class> r;
      auto& [m, lead] = *b.p.t.begin();
      mpq_class num, den;
      auto av = C::flat(a.p[m]), bv = C::flat(lead);
      for (size_t i = 0; i < bv.size(); i++)
        if (bv[i] != 0) {
          r = av[i] / bv[i];
          break;
        }
      if (r && r->get_den() == 1 && b.p.scaled(C::of(w.F, *r)) == a.p) exact = r->get_num();
    }
    if (exact) expected = *exact;
    else
      for (long prec = 128;; prec *= 4) {
        if (prec > 300000) throw std::logic_error("model: floor of a quotient " + what);
        IV y = w.value(b.p, prec);
        if (y.lo <= 0 && y.hi >= 0) continue;
        IV q = w.value(a.p, prec) * inv(y);
        mpz_class lo = floorQ(q.lo), hi = floorQ(q.hi);
        if (lo == hi) {
          expected = lo;
          break;
        }
      }
    mpz_class got = a.e.floordiv(b.e);
    CHECK(got == expected, "floordiv", what << w.legend() << " is " << got << " and not " << expected);
    tally(exact ? "floors of quotients that are integers" : "floors of quotients");
    cover(hcomb(E.hash(a), E.hash(b)));
  }
  // scalars
  for (int rep = 0; rep < 3; rep++) {
    Elem<R> a = E.random(E.randomBasis(3, 2), 60), r = a;
    if (rng.chance(1, 2)) a = E.of(a.p.scaled(C::of(w.F, rng.range(1, 12) * 60)));
    auto divide = [&](auto v, const mpq_class& q) {
      std::string what = E.show(a) + " / " + str(q);
      at(what + w.legend());
      std::optional<Poly<C>> expected;
      if (q != 0) {
        Poly<C> s(w.F);
        bool ok = true;
        for (auto& [m, c] : a.p.t) {
          if constexpr (std::is_same_v<R, IntegerRing>) {
            mpq_class x = mpq_class(c) / q;
            if (x.get_den() != 1) ok = false;
            else s.add(m, x.get_num());
          } else s.add(m, c * C::of(w.F, 1 / q));
        }
        if (ok) expected = s;
      }
      if (!expected && q == 0 && a.basis.empty()) return;  // nothing to divide
      if (!expected) {
        must_throw<std::invalid_argument>("division", [&] { (void)(a.e / v); }, what);
        tally(q == 0 ? "divisions by zero" : "divisions of integers with a remainder");
      } else {
        Element<R> got = a.e;
        if (rng.chance(1, 2)) got /= v;
        else got = a.e / v;
        E.verify({got, *expected, a.basis}, what);
        tally("divisions by scalars");
      }
      E.verify(a, "dividend of " + what);
    };
    switch (rng.below(6)) {
      case 0: divide(mpz_class(0), 0); break;
      case 1: {
        mpz_class z = rng.range(-30, 30);
        divide(z, z);
        break;
      }
      case 2: {
        mpq_class q(rng.range(-10, 10), rng.range(1, 10));
        q.canonicalize();
        divide(q, q);
        break;
      }
      case 3:
        if constexpr (std::is_same_v<R, NumberField>) {
          NF c = C::random(w.F, rng, 40);
          if (c.zero()) c = NF::gen(*w.F);
          auto got = a.e / c.antic();
          E.verify({got, a.p.scaled(inverse(c)), a.basis}, E.show(a) + " / " + str(c));
          tally("divisions by number field elements");
          must_throw<std::invalid_argument>("division-by-zero", [&] { if (a.e.module()->rank()) (void)(a.e / eantic::renf_elem_class(*w.F->K)); else throw std::invalid_argument(""); }, E.show(a) + " / 0");
          break;
        }
        [[fallthrough]];
      default: primitive(rng, [&](auto v) { divide(v, bigint(v)); });
    }
    (void)r;
  }
}
PROPERTY(C13) {
  anyRing(rng, [&](auto* tag) { division<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
