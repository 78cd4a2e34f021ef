// C24: the functions through which Python calls the library (exact-real/cppyy.hpp).
#include <exact-real/cppyy.hpp>

#include "arb_env.hpp"
#include "arf_env.hpp"
#include "elements.hpp"

namespace verif {
namespace {
namespace py = exactreal::cppyy;

Arf::Round anyRound(Rng& rng) { return rng.of({Arf::Round::NEAR, Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL}); }

Dy someDy(Rng& rng) {
  switch (rng.below(4)) {
    case 0: return Dy(rng.range(-9, 9), rng.range(-3, 3));
    case 1: return Dy(randInt(rng, 300), rng.range(-300, 300));
    default: return Dy(randInt(rng, 64), rng.range(-70, 20));
  }
}

void floats(Rng& rng) {
  const Dy a = someDy(rng), b = someDy(rng), c = someDy(rng);
  Arf x = mkArf(a), y = mkArf(b), z = mkArf(c);
  const Arf cx = x, cy = y;
  const long p = rng.range(2, 200);
  const auto R = anyRound(rng);
  const Rnd r = rnd(R);
  const std::string what = str(a) + ", " + str(b) + ", " + str(c) + " with " + str(p) + " bits, rounding " + str(static_cast<int>(r));
  at("floats " + what);
  auto same = [&](const char* op, const Arf& got, const Dy& want) {
    CHECK(dy(got.arf_t()) == want, "float", op << " of " << what << " is " << dy(got.arf_t()) << " and not " << want);
    tally("floats evaluated");
  };
  same("add", py::eval(py::add(x, y), p, R), add(a, b, p, r));
  same("sub", py::eval(py::sub(cx, cy), p, R), sub(a, b, p, r));
  same("mul", py::eval(py::mul(x, cy), p, R), mul(a, b, p, r));
  if (!b.zero()) same("truediv", py::eval(py::truediv(cx, y), p, R), div(a, b, p, r));
  same("neg", Arf(py::neg(cx)), neg(a));
  same("itself", py::eval(py::mul(x, x), p, R), mul(a, a, p, r));
  // nested expressions; with all parts still there, as Python guarantees
  const auto s = py::add(x, y);
  const auto t = py::mul(s, z);
  same("(a + b)*c", py::eval(t, p, R), mul(add(a, b, p, r), c, p, r));
  const auto n = py::neg(s);
  same("-(a + b)", py::eval(n, p, R), neg(add(a, b, p, r)));
  const auto d = py::sub(t, s);
  same("(a + b)*c - (a + b)", py::eval(d, p, R), sub(mul(add(a, b, p, r), c, p, r), add(a, b, p, r), p, r));
  same("a second time", py::eval(t, p, R), mul(add(a, b, p, r), c, p, r));
  // with other types on either side
  const long l = rng.range(-1000, 1000);
  same("a + long", py::eval(py::add(x, l), p, R), add(a, Dy(l), p, r));
  same("long - a", py::eval(py::sub(l, x), p, R), sub(Dy(l), a, p, r));
  same("a * long", py::eval(py::mul(x, l), p, R), mul(a, Dy(l), p, r));
  if (l) same("a / long", py::eval(py::truediv(x, l), p, R), div(a, Dy(l), p, r));
  same("unchanged", x, a);
  same("unchanged", y, b);
}

void balls(Rng& rng) {
  const Dy ma = someDy(rng), mb = someDy(rng);
  auto radius = [&](const Dy& m) { return rng.chance(1, 3) || m.zero() ? Dy() : Dy(static_cast<long>(1 + rng.below(1 << 20)), m.top() - rng.range(15, 80)); };
  Arb x, y;
  setBall(x.arb_t(), ma, radius(ma));
  setBall(y.arb_t(), mb, radius(mb));
  const long p = rng.range(2, 200);
  const std::string what = show(x.arb_t()) + ", " + show(y.arb_t()) + " with " + str(p) + " bits";
  at("balls " + what);
  const auto X = iv(x.arb_t()).value(), Y = iv(y.arb_t()).value();
  Ball ref;
  auto check = [&](const char* op, const Arb& got, std::function<std::optional<mpq_class>(const mpq_class&, const mpq_class&)> f) {
    for (auto* a : {&X.lo, &X.hi})
      for (auto* b : {&Y.lo, &Y.hi})
        if (auto v = f(*a, *b)) CHECK(contains(got.arb_t(), *v), "ball", op << " of " << what << " is " << show(got.arb_t()) << " which does not contain " << *v);
    if (arb_is_finite(ref.b) && arb_rel_accuracy_bits(ref.b) > 0) CHECK(arb_is_finite(got.arb_t()) && arb_rel_accuracy_bits(got.arb_t()) >= std::min(p, arb_rel_accuracy_bits(ref.b)) - 4, "ball", op << " of " << what << " is " << show(got.arb_t()) << " but it should be about as good as " << show(ref.b));
    tally("balls evaluated");
  };
  using Q = std::optional<mpq_class>;
  arb_add(ref.b, x.arb_t(), y.arb_t(), p);
  check("add", py::eval(py::add(x, y), p), [](auto& a, auto& b) { return Q(a + b); });
  arb_sub(ref.b, x.arb_t(), y.arb_t(), p);
  check("sub", py::eval(py::sub(x, y), p), [](auto& a, auto& b) { return Q(a - b); });
  arb_mul(ref.b, x.arb_t(), y.arb_t(), p);
  check("mul", py::eval(py::mul(x, y), p), [](auto& a, auto& b) { return Q(a * b); });
  arb_div(ref.b, x.arb_t(), y.arb_t(), p);
  check("truediv", py::eval(py::truediv(x, y), p), [](auto& a, auto& b) { return b == 0 ? Q() : Q(a / b); });
  arb_neg(ref.b, x.arb_t());
  const Arb cx = x;
  check("neg", Arb(py::neg(cx)), [](auto& a, auto&) { return Q(-a); });
  const auto s = py::add(x, y);
  const auto t = py::mul(s, x);
  arb_add(ref.b, x.arb_t(), y.arb_t(), p);
  arb_mul(ref.b, ref.b, x.arb_t(), p);
  check("(a + b)*a", py::eval(t, p), [](auto& a, auto& b) { return Q((a + b) * a); });
  const auto n = py::neg(t);
  arb_neg(ref.b, ref.b);
  check("-(a + b)*a", py::eval(n, p), [](auto& a, auto& b) { return Q(-(a + b) * a); });
  const long l = rng.range(-1000, 1000);
  arb_add_si(ref.b, x.arb_t(), l, p);
  check("a + long", py::eval(py::add(x, l), p), [&](auto& a, auto&) { return Q(a + l); });
  arb_sub_si(ref.b, x.arb_t(), l, p);
  arb_neg(ref.b, ref.b);
  check("long - a", py::eval(py::sub(l, x), p), [&](auto& a, auto&) { return Q(l - a); });
  // The operands are still what they were.
  CHECK(iv(x.arb_t()).value().lo == X.lo && iv(x.arb_t()).value().hi == X.hi && iv(y.arb_t()).value().lo == Y.lo && iv(y.arb_t()).value().hi == Y.hi, "changed", what);
}

template <typename R>
void elements(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 3)));
  Elements<R> E(w, rng);
  const auto a = rng.chance(1, 5) ? delicate(E, rng) : E.random(E.randomBasis(3, 2), 40);
  const auto b = rng.chance(1, 4) ? E.random(a.basis, 40) : E.random(E.randomBasis(2, 2), 40);
  cover(hcomb(E.hash(a), E.hash(b)));
  const std::string what = E.show(a) + ", " + E.show(b);
  if (index < 3) sample(what);
  at(what + w.legend());
  for (auto& m : products(a.basis, b.basis)) w.real(m);
  auto same = [&](const char* op, const Element<R>& got, const Poly<C>& want) {
    E.verify({got, want, {}}, op + (" of " + what), false);
    tally("elements computed");
  };
  same("add", py::add(a.e, b.e), a.p + b.p);
  same("sub", py::sub(a.e, b.e), a.p - b.p);
  same("mul", py::mul(a.e, b.e), a.p * b.p);
  same("neg", py::neg(a.e), -a.p);
  // quotients, and whether there are any
  if (!b.p.zero()) {
    const auto q = quotient(a.p, b.p);
    for (auto& [m, c] : q ? q->t : Poly<C>(w.F).t) w.real(m);
    const std::optional<Element<R>> got = py::truediv(a.e, b.e);
    CHECK(got.has_value() == q.has_value(), "truediv", what << w.legend() << ": quotient " << (q ? "not found" : "should not exist"));
    if (q) same("truediv", *got, *q);
    const std::optional<Element<R>> back = py::truediv(py::mul(a.e, b.e), b.e);
    CHECK(back.has_value(), "truediv", what << w.legend() << ": quotient of the product not found");
    same("truediv of the product", *back, a.p);
    tally("quotients", 2);
  }
  // scalars on both sides
  primitive(rng, [&](auto v) {
    auto s = C::of(w.F, mpq_class(bigint(v)));
    same("mul by a scalar", py::mul(a.e, v), a.p.scaled(s));
    same("mul by a scalar from the left", py::mul(v, a.e), a.p.scaled(s));
    same("truediv by a scalar", py::truediv(py::mul(a.e, v), v), a.p);
  });
  const mpz_class z = rng.range(1, 50);
  same("mul by mpz", py::mul(a.e, z), a.p.scaled(C::of(w.F, z)));
  same("mul by mpz from the left", py::mul(z, a.e), a.p.scaled(C::of(w.F, z)));
  same("truediv by mpz", py::truediv(py::mul(z, a.e), z), a.p);
  if constexpr (!std::is_same_v<R, IntegerRing>) {
    mpq_class q(rng.range(1, 9), rng.range(1, 9));
    q.canonicalize();
    same("mul by mpq", py::mul(a.e, q), a.p.scaled(C::of(w.F, q)));
    same("mul by mpq from the left", py::mul(q, a.e), a.p.scaled(C::of(w.F, q)));
    same("truediv by mpq", py::truediv(a.e, q), a.p.scaled(C::of(w.F, mpq_class(1 / q))));
  }
  if constexpr (std::is_same_v<R, NumberField>) {
    NF c = NF::random(*w.F, rng, 20);
    if (c.zero()) c = NF(*w.F, 2);
    same("mul by a number field element", py::mul(a.e, c.antic()), a.p.scaled(c));
    same("mul by a number field element from the left", py::mul(c.antic(), a.e), a.p.scaled(c));
    same("truediv by a number field element", py::truediv(a.e, c.antic()), a.p.scaled(inverse(c)));
  }
  E.verify(a, "operand");
  E.verify(b, "operand");
  // explicit conversions
  for (const auto& x : {a, E.of(a.p.zero() ? a.p : [&] {
         Poly<C> p(w.F);
         p.add(w.one(), C::random(w.F, rng, 30));
         return p;
       }(), true)}) {
    const auto q = rationalTruth(w, x.p);
    CHECK(py::optional_rational(x.e) == q, "optional_rational", E.show(x) << w.legend());
    const std::optional<mpz_class> i = py::optional_integer(x.e);
    CHECK(i.has_value() == (q && q->get_den() == 1) && (!i || *i == q->get_num()), "optional_integer", E.show(x) << w.legend());
    tally(q ? "rational elements" : "elements that are not rational");
  }
}
}  // namespace

PROPERTY(C24) {
  for (int k = 0; k < 3; k++) {
    floats(rng);
    balls(rng);
  }
  anyRing(rng, [&](auto* tag) { elements<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}
}  // namespace verif
