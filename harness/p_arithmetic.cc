// C12
#include "elements.hpp"

namespace verif {
namespace {

template <typename R>
void arithmetic(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 4)));
  w.rationalGenerator(rng);
  const bool multiply = w.constant == 1;
  Elements<R> E(w, rng);
  std::vector<Elem<R>> xs;
  auto fresh = [&] {
    Elem<R> x = rng.chance(1, 12) ? Elem<R>{Element<R>(), Poly<C>(w.F), {}} : E.random(E.randomBasis(3, 2));
    return x;
  };
  for (int i = 0; i < 3; i++) xs.push_back(fresh());
  // often in the same module
  if (rng.chance(1, 3)) xs[1] = E.random(xs[0].basis);
  uint64_t h = 12;
  for (auto& x : xs) h = hcomb(h, E.hash(x));
  std::string log;
  const int steps = static_cast<int>(rng.range(3, 9));
  for (int s = 0; s < steps; s++) {
    size_t i = rng.below(xs.size()), j = rng.below(xs.size());
    Elem<R>&a = xs[i], &b = xs[j];
    if (rng.chance(1, 4)) {
      at("asking " + E.show(a) + " and " + E.show(b) + w.legend());
      E.touch(a.e);
      if (rng.chance(1, 2)) E.touch(b.e);
    }
    const Elem<R> a0 = a, b0 = b;
    std::ostringstream what;
    bool basis = true;
    Elem<R> r = a;
    int op = static_cast<int>(rng.below(14));
    auto begin = [&](const std::string& name, const std::string& rhs) {
      what << E.show(a0) << " " << name << " " << rhs;
      at(what.str() + w.legend());
      h = hcomb(h, hstr(name));
    };
    switch (op) {
      case 0:
      case 1:
      case 2: {
        // addition and subtraction
        bool sub = rng.chance(1, 2);
        begin(sub ? "-" : "+", E.show(b0));
        r.p = sub ? a.p - b.p : a.p + b.p;
        r.basis = unite(a.basis, b.basis);
        switch (rng.below(3)) {
          case 0: r.e = sub ? a.e - b.e : a.e + b.e; break;
          case 1: {
            auto& ret = sub ? r.e -= b.e : r.e += b.e;
            CHECK(&ret == &r.e, "return", what.str() << ": compound assignment returns something else");
            break;
          }
          default:  // in place; a and b might be the same object
            if (sub) a.e -= b.e;
            else a.e += b.e;
            r.e = a.e;
            if (i != j) a.e = a0.e;
            tally("aliased operands", i == j);
        }
        if (a0.basis.empty() || b0.basis.empty()) tally("trivial modules");
        if (r.p.zero()) tally("complete cancellations");
        tally("sums and differences");
        break;
      }
      case 3:
      case 4:
      case 5: {
        int da = 0, db = 0;
        for (auto& m : a.basis) da = std::max(da, deg(m));
        for (auto& m : b.basis) db = std::max(db, deg(m));
        if (!multiply || da + db > 6 || a.basis.size() * b.basis.size() > 60) continue;
        begin("*", E.show(b0));
        r.p = a.p * b.p;
        r.basis = products(a.basis, b.basis);
        for (auto& m : r.basis) w.real(m);
        if (a.p.zero() || b.p.zero()) basis = false;
        switch (rng.below(3)) {
          case 0: r.e = a.e * b.e; break;
          case 1: {
            auto& ret = r.e *= b.e;
            CHECK(&ret == &r.e, "return", what.str() << ": compound assignment returns something else");
            break;
          }
          default:
            a.e *= b.e;
            r.e = a.e;
            if (i != j) a.e = a0.e;
            tally("aliased operands", i == j);
        }
        if (!basis) r.basis = basisOf(w, r.e);
        tally("products");
        break;
      }
      case 6:
        begin("negated", "");
        r.p = -a.p;
        r.e = -a.e;
        tally("negations");
        break;
      case 7:
      case 8:
        // machine integers
        primitive(rng, [&](auto v) {
          mpz_class z = bigint(v);
          begin("* scalar", z.get_str());
          r.p = a.p.scaled(C::of(w.F, z));
          switch (rng.below(3)) {
            case 0: r.e *= v; break;
            case 1: r.e = a.e * v; break;
            default: r.e = v * a.e;
          }
        });
        tally("products with machine integers");
        break;
      case 9: {
        bool q = rng.chance(1, 2) && !std::is_same_v<R, IntegerRing>;
        mpq_class v = q ? randQ(rng, 60) : mpq_class(randInt(rng, 100));
        begin("* scalar", v.get_str());
        r.p = a.p.scaled(C::of(w.F, v));
        mpz_class z = v.get_num();
        if (q || rng.chance(1, 4)) {
          if (rng.chance(1, 2)) r.e *= v;
          else r.e = v * a.e;
        } else if (rng.chance(1, 2)) r.e *= z;
        else r.e = a.e * z;
        tally("products with GMP numbers");
        break;
      }
      case 10:
        if constexpr (std::is_same_v<R, NumberField>) {
          NF c = C::random(w.F, rng, 40);
          begin("* scalar", str(c));
          r.p = a.p.scaled(c);
          if (rng.chance(1, 2)) r.e *= c.antic();
          else r.e = a.e * c.antic();
          tally("products with number field elements");
          break;
        } else continue;
      case 11: {
        // a real number
        if (rng.chance(1, 8)) {
          begin("* real number", "0");
          r.p = Poly<C>(w.F);
          if (rng.chance(1, 2)) r.e *= *RealNumber::rational(0);
          else r.e = a.e * *RealNumber::rational(0);
          r.basis = basisOf(w, r.e);
          basis = false;
          tally("products with zero");
          break;
        }
        Mono m = w.randomMono(2);
        int da = 0;
        for (auto& n : a.basis) da = std::max(da, deg(n));
        if (!multiply || da > 4) continue;
        begin("* real number", w.name(m));
        Poly<C> g(w.F);
        g.add(m, C::of(w.F, 1));
        r.p = a.p * g;
        r.basis = products(a.basis, {m});
        if (a.p.zero()) basis = false;
        auto x = w.real(m);
        for (auto& n : r.basis) w.real(n);
        if (rng.chance(1, 2)) r.e *= *x;
        else r.e = a.e * *x;
        if (!basis) r.basis = basisOf(w, r.e);
        tally("products with real numbers");
        break;
      }
      case 12: {
        // exact division by a scalar
        begin("times and divided by", "a scalar");
        primitive(rng, [&](auto v) {
          Element<R> m = a.e * v;
          if (rng.chance(1, 2)) r.e = m / v;
          else {
            m /= v;
            r.e = m;
          }
        });
        tally("exact divisions by scalars");
        break;
      }
      default: {
        begin("copied", "");
        Element<R> c(a.e), d;
        d = c;
        Element<R> m(std::move(c));
        c = d;
        r.e = rng.chance(1, 2) ? m : c;
        auto& self = r.e;
        r.e = self;
        tally("copies");
      }
    }
    E.verify(r, what.str(), basis);
    if (rng.chance(1, 4)) E.consistent(r, what.str());
    // operands keep their value
    if (i != j || !(op <= 5)) E.verify(a0, "left operand of " + what.str());
    {
      // a copy taken before the operation, and the right operand
      E.verify(a0, "copy of an operand of " + what.str());
      if (i != j) E.verify(b, "right operand of " + what.str());
    }
    if (i == j) xs[i] = a0;
    xs[rng.below(xs.size())] = r;
    for (auto& x : xs) {
      size_t worst = 0;
      for (auto& [m, c] : x.p.t)
        for (auto& q : C::flat(c)) worst = std::max({worst, bits(q.get_num()), bits(q.get_den())});
      if (worst > 3000) x = fresh();
    }
    if (index < 3 && s == 0) sample(what.str());
    cover(hcomb(h, E.hash(r)));
  }
}
PROPERTY(C12) {
  anyRing(rng, [&](auto* tag) { arithmetic<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
