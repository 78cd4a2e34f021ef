// C14
#include "elements.hpp"

namespace verif {
namespace {

template <typename R>
void approximations(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 3)), rng.chance(2, 3));
  w.rationalGenerator(rng);
  Elements<R> E(w, rng);
  for (int rep = 0; rep < 3; rep++) {
    std::optional<mpq_class> target;
    if (rng.chance(1, 3)) {
      // close to the midpoint of two doubles
      mpz_class m = (shl(mpz_class(1), 52) + static_cast<unsigned long>(rng.below(1UL << 52))) * 2 + 1;
      target = Dy(m, std::is_same_v<R, IntegerRing> ? rng.range(0, 100) : rng.chance(1, 4) ? rng.range(-1080, -1070) : rng.range(-300, 100)).q();
      if (rng.chance(1, 2)) target = -*target;
    }
    Elem<R> x = delicate(E, rng, target);
    const std::string d = E.show(x) + w.legend();
    cover(E.hash(x));
    if (index < 3 && rep == 0) sample(E.show(x));
    {
      long acc = rng.of({1L, 2L, 30L, 53L, 64L, 65L, 128L, rng.range(1, 1500)});
      if (rng.chance(1, 150)) acc = rng.range(1500, 9000);
      peak("accuracy", static_cast<double>(acc));
      at("arb(" + str(acc) + ") of " + d);
      Arb a = x.e.arb(acc);
      auto i = iv(a.arb_t());
      CHECK(i, "not-finite", "arb(" << acc << ") of " << d << " is " << show(a.arb_t()));
      if (x.p.zero()) {
        CHECK(i->lo == 0 && i->hi == 0, "zero", "arb(" << acc << ") of " << d << " is " << show(a.arb_t()));
      } else {
        CHECK(arb_rel_accuracy_bits(a.arb_t()) >= acc, "inaccurate", "arb(" << acc << ") of " << d << " is " << show(a.arb_t()) << " with " << arb_rel_accuracy_bits(a.arb_t()) << " bits");
        IV t = w.value(x.p, acc + 100);
        if (auto q = rationalTruth(w, x.p)) t = IV(*q);
        else
          for (long prec = acc + 100; !(i->lo <= t.lo && t.hi <= i->hi) && i->lo <= t.hi && t.lo <= i->hi; prec *= 2) {
            if (prec > 600000) throw std::logic_error("model: containment of an element");
            t = w.value(x.p, prec);
          }
        CHECK(i->lo <= t.lo && t.hi <= i->hi, "not-contained", "arb(" << acc << ") of " << d << " is " << show(a.arb_t()) << " but the element is in [" << t.lo.get_d() << ", " << t.hi.get_d() << "]");
      }
      tally("balls checked");
    }
    {
      at("floor and ceil of " + d);
      mpz_class f = floorTruth(w, x.p), c = -floorTruth(w, -x.p);
      mpz_class gf = x.e.floor(), gc = x.e.ceil();
      CHECK(gf == f, "floor", "of " << d << " is " << gf << " and not " << f);
      CHECK(gc == c, "ceil", "of " << d << " is " << gc << " and not " << c);
      tally(f == c ? "integers rounded" : "floors and ceilings");
    }
    {
      at("double of " + d);
      double e = nearestTruth(w, x.p), g = static_cast<double>(x.e);
      CHECK(g == e || (std::isnan(g) && std::isnan(e)), "double", "conversion of " << d << " to double is " << Dy::ofDouble(g) << " and not " << Dy::ofDouble(e));
      tally("conversions to double");
      if (std::fabs(e) > 0 && std::fabs(e) < DBL_MIN) tally("conversions to subnormal doubles");
      if (std::isinf(e)) tally("conversions that overflow");
    }
  }
}
PROPERTY(C14) {
  anyRing(rng, [&](auto* tag) { approximations<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
