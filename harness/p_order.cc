// C15
#include "elements.hpp"

namespace verif {
namespace {

template <typename A, typename B>
void sixWays(const A& a, const B& b, int truth, const std::function<std::string()>& what) {
  const bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
  if (lt != (truth < 0) || gt != (truth > 0) || le != (truth <= 0) || ge != (truth >= 0) || eq != (truth == 0) || ne != (truth != 0)) {
    std::ostringstream os;
    os << what() << ": < " << lt << ", > " << gt << ", <= " << le << ", >= " << ge << ", == " << eq << ", != " << ne << " but the sign of the difference is " << truth;
    fail("comparison", os.str());
  }
  tally(truth ? "comparisons of different values" : "comparisons of equal values");
}
template <typename R>
void comparisons(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 3)), rng.chance(1, 2));
  w.rationalGenerator(rng);
  Elements<R> E(w, rng);
  for (int rep = 0; rep < 3; rep++) {
    Elem<R> a = E.random(E.randomBasis(3, 2, 35), 60), b = a;
    switch (w.scale == World::Scale::TERMS && rng.chance(1, 2) ? 5 : rng.below(6)) {
      case 5: {
        // a small change of a single coefficient
        Poly<C> p = a.p;
        if (!a.basis.empty()) p.add(a.basis[rng.below(a.basis.size())], C::of(w.F, std::is_same_v<R, IntegerRing> ? mpq_class(rng.of({1, -1})) : mpq_class(rng.of({1, -1}) * pow2(-rng.range(1, 200)))));
        b = rng.chance(1, 2) ? E.build(a.basis, p) : E.of(p, true);
        tally("elements compared that differ in one coefficient");
        break;
      }
      case 0: b = E.random(rng.chance(1, 2) ? a.basis : E.randomBasis(3, 2)); break;
      case 1: b = E.of(a.p, true); break;
      case 2: b = E.of(a.p, false); break;
      default: {
        Elem<R> d = delicate(E, rng);
        b = E.of(a.p + d.p, rng.chance(1, 3));
      }
    }
    std::string d = E.show(a) + " and " + E.show(b);
    at("comparison of " + d + w.legend());
    sixWays(a.e, b.e, signTruth(w, a.p - b.p), [&] { return d + w.legend(); });
    if (a.p == b.p) {
      std::hash<Element<R>> hash;
      CHECK(hash(a.e) == hash(b.e), "hash", d << w.legend() << ": equal but with different hashes");
      tally("hashes of equal elements");
    }
    CHECK(a.e == a.e && !(a.e < a.e), "reflexive", d);
    cover(hcomb(E.hash(a), E.hash(b)));
    if (index < 3 && rep == 0) sample(d);
  }
  // constants
  for (int rep = 0; rep < 3; rep++) {
    primitive(rng, [&](auto v) {
      if (rng.chance(1, 6)) v = 0;
      mpz_class z = bigint(v);
      Elem<R> a;
      switch (rng.below(4)) {
        case 0: {
          Poly<C> p(w.F);
          mpq_class y = (z + rng.range(-1, 1)) / w.constant;
          p.add(w.one(), C::of(w.F, std::is_same_v<R, IntegerRing> ? mpq_class(floorQ(y)) : y));
          a = E.of(p, rng.chance(1, 2));
          break;
        }
        case 1: a = E.random(E.randomBasis(2, 2), 60); break;
        default: a = delicate(E, rng, mpq_class(z));
      }
      auto what = [&] { return E.show(a) + " and " + str(z) + w.legend(); };
      at("comparison of " + what());
      int s = compareTruth(w, a.p, mpq_class(z));
      sixWays(a.e, v, s, what);
      sixWays(v, a.e, -s, what);
      sixWays(a.e, z, s, what);
      sixWays(z, a.e, -s, what);
      sixWays(a.e, mpq_class(z), s, what);
      tally("comparisons with machine integers");
      cover(hcomb(E.hash(a), hstr(z.get_str())));
    });
    mpq_class q = randQ(rng, 80);
    Elem<R> a = std::is_same_v<R, IntegerRing> ? E.random(E.randomBasis(2, 2), 60) : delicate(E, rng, q);
    auto what = [&] { return E.show(a) + " and " + str(q) + w.legend(); };
    at("comparison of " + what());
    int s = compareTruth(w, a.p, q);
    sixWays(a.e, q, s, what);
    sixWays(q, a.e, -s, what);
    tally("comparisons with rationals");
    cover(hcomb(E.hash(a), hashQ(q)));
  }
  // generators
  for (int rep = 0; rep < 2; rep++) {
    Mono m = w.randomMono(2);
    Poly<C> g(w.F);
    g.add(m, C::of(w.F, 1));
    Elem<R> a;
    switch (rng.below(4)) {
      case 0: a = E.build(unite({m}, E.randomBasis(2, 2)), g); break;
      case 1: a = E.random(unite({m}, E.randomBasis(2, 2)), 20); break;
      case 2: {
        Poly<C> p = g;
        p.add(w.randomMono(2), C::of(w.F, rng.range(-1, 1)));
        a = E.build(unite({m}, [&] { std::vector<Mono> s; for (auto& t : p.t) s.push_back(t.first); return s; }()), p);
        break;
      }
      default: {
        Elem<R> d = delicate(E, rng, mpq_class(0));
        Poly<C> p = g + d.p;
        std::set<Mono> s{m};
        for (auto& t : p.t) s.insert(t.first);
        a = E.build({s.begin(), s.end()}, p);
      }
    }
    auto x = w.real(m);
    auto what = [&] { return E.show(a) + " and " + w.name(m) + w.legend(); };
    at("comparison of " + what());
    int s = signTruth(w, a.p - g);
    sixWays(a.e, *x, s, what);
    sixWays(*x, a.e, -s, what);
    tally("comparisons with generators");
    cover(hcomb(E.hash(a), hstr(w.name(m))));
  }
}
PROPERTY(C15) {
  anyRing(rng, [&](auto* tag) { comparisons<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
