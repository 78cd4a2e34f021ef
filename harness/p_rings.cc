// C22: the rings of coefficients, exactly.
#include <exact-real/arb.hpp>
#include <exact-real/integer_ring.hpp>
#include <exact-real/number_field.hpp>
#include <exact-real/rational_field.hpp>
#include <e-antic/renfxx.h>

#include "elements.hpp"

namespace verif {
namespace {
// A scalar together with its value.
template <typename T>
mpq_class valueOf(const T& t) {
  if constexpr (std::is_same_v<T, mpz_class>) return mpq_class(t);
  else if constexpr (std::is_same_v<T, mpq_class>) return t;
  else return mpq_class(bigint(t));
}

template <typename R>
struct Rings {
  using C = Co<R>;
  using T = typename C::T;
  using E = typename R::ElementClass;
  static constexpr bool Z = std::is_same_v<R, IntegerRing>, K = std::is_same_v<R, NumberField>;
  const Field* F;
  Rng& rng;

  T read(const E& e, const std::string& what) {
    auto r = C::read(F, e);
    CHECK(r, "not-canonical", what << ": not a canonical element of the ring: " << e);
    return *r;
  }
  // The quotient in the ring if there is one.
  std::optional<T> quotient(const T& a, const mpq_class& b) {
    if (b == 0) return std::nullopt;
    if constexpr (Z) {
      mpq_class q = mpq_class(a) / b;
      if (q.get_den() != 1) return std::nullopt;
      return q.get_num();
    } else return T(a * mpq_class(1 / b));
  }
  std::optional<T> product(const T& a, const mpq_class& b) {
    if constexpr (Z) {
      mpq_class q = mpq_class(a) * b;
      if (q.get_den() != 1) return std::nullopt;
      return q.get_num();
    } else return T(a * b);
  }

  template <typename S>
  void scalar(const T& x, const S& s, const mpq_class& v, const char* type) {
    const std::string what = str(x) + " with " + v.get_str() + " (" + type + ")";
    at(what);
    for (bool mul : {true, false}) {
      std::optional<T> want = mul ? product(x, v) : quotient(x, v);
      E e = C::lib(x);
      const E before = e;
      bool threw = false;
      E* ret = nullptr;
      try {
        ret = mul ? &R::imul(e, s) : &R::idiv(e, s);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      CHECK(threw == !want, mul ? "imul" : "idiv", what << (want ? " was refused" : " was not refused but has no result in the ring") << ", left " << e);
      if (want) {
        CHECK(ret == &e, "returned", what << ": does not return its first argument");
        CHECK(read(e, what) == *want, mul ? "imul" : "idiv", what << (mul ? ": product is " : ": quotient is ") << e << " and not " << *want);
        tally(mul ? "products" : "quotients");
      } else {
        CHECK(e == before, "changed", what << ": was refused but changed its argument to " << e);
        tally(v == 0 ? "divisions by zero refused" : "refused since not in the ring");
      }
    }
  }
  void scalars(const T& x) {
    // Half of the time, scalars that divide.
    for (int k = 0; k < 3; k++)
      primitive(rng, [&](auto s) {
        T y = x;
        if (rng.chance(1, 2)) {
          auto p = product(x, valueOf(s));
          if (p) y = *p;
        }
        scalar(y, s, valueOf(s), "primitive");
        scalar(x, decltype(s)(0), 0, "primitive zero");
      });
    mpz_class z = rng.chance(1, 8) ? mpz_class(0) : rng.chance(1, 2) ? randInt(rng, 100) : mpz_class(rng.range(-6, 6));
    scalar(x, z, mpq_class(z), "mpz");
    if (auto p = product(x, mpq_class(z))) scalar(*p, z, mpq_class(z), "mpz");
    mpq_class q = rng.chance(1, 8) ? mpq_class(0) : rng.chance(1, 2) ? randQ(rng, 80) : mpq_class(rng.range(-6, 6), rng.range(1, 6));
    q.canonicalize();
    scalar(x, q, q, "mpq");
    if (auto p = product(x, q)) scalar(*p, q, q, "mpq");
    if (auto p = product(x, mpq_class(q.get_den()))) scalar(*p, q, q, "mpq");
    if (auto p = product(x, mpq_class(q.get_num()))) scalar(*p, q, q, "mpq");
  }
  // Scalars that are elements of the ring, and the argument itself.
  void elements(const T& x, const T& y) {
    const std::string what = str(x) + " with " + str(y);
    at(what);
    if constexpr (K) {
      E e = C::lib(x);
      const E s = C::lib(y);
      CHECK(&R::imul(e, s) == &e && read(e, what) == x * y, "imul", what << ": product is " << e);
      tally("products");
      e = C::lib(x);
      if (y.zero()) {
        must_throw<std::invalid_argument>("idiv", [&] { R::idiv(e, s); }, what);
        CHECK(read(e, what) == x, "changed", what << ": was refused but changed its argument to " << e);
        tally("divisions by zero refused");
      } else {
        CHECK(&R::idiv(e, s) == &e && read(e, what) == x * inverse(y), "idiv", what << ": quotient is " << e);
        tally("quotients");
      }
      CHECK(read(s, what) == y, "changed", what << ": changed the second argument");
    }
    E e = C::lib(x);
    R::imul(e, e);
    CHECK(read(e, what) == T(x * x), "imul", x << " times itself is " << e);
    e = C::lib(x);
    if (!C::zero(x)) {
      R::idiv(e, e);
      CHECK(read(e, what) == C::of(F, 1), "idiv", x << " by itself is " << e);
    } else must_throw<std::invalid_argument>("idiv", [&] { R::idiv(e, e); }, "zero by itself");
    tally("aliased operands");
  }
  void facts(const T& x) {
    at(str(x));
    const E e = C::lib(x);
    bool unit = Z ? C::rational(x) == mpq_class(1) || C::rational(x) == mpq_class(-1) : !C::zero(x);
    CHECK(R::unit(e) == unit, "unit", x);
    const auto q = C::rational(x);
    CHECK(R::rational(e) == q, "rational", x << " is " << (q ? "" : "not ") << "rational");
    mpz_class fl;
    if constexpr (K) fl = x.floor();
    else fl = floorQ(mpq_class(x));
    CHECK(R::floor(e) == fl, "floor", x << ": floor should be " << fl << " but is " << R::floor(e));
    const R ring = C::ring(F);
    CHECK(read(ring.coerce(e), "coerce") == x, "coerce", x << " became " << ring.coerce(e));
    CHECK(R(e) == ring || K, "ring of an element", x);
    long prec = rng.chance(1, 2) ? rng.range(4, 100) : rng.range(4, rng.chance(1, 30) ? 8000 : 600);
    const Arb a = R::arb(e, prec);
    IV i = iv(a.arb_t()).value(), truth = C::enclose(x, prec + 200);
    CHECK(i.lo <= truth.lo && truth.hi <= i.hi, "arb", x << " at precision " << prec << " is " << verif::show(a.arb_t()));
    CHECK(i.hi - i.lo <= C::height(x) * pow2(8 - prec), "arb", x << " at precision " << prec << " is " << verif::show(a.arb_t()) << " which is inaccurate");
    if (Z) CHECK(a.is_exact() && i.lo == truth.lo, "arb", x << " is " << verif::show(a.arb_t()) << " which is not exact");
    tally("elements of rings");
  }
  void ring() {
    const R r = C::ring(F), s = C::ring(F);
    CHECK(r == s && !(r != s) && std::hash<R>()(r) == std::hash<R>()(s), "equality", C::name);
    CHECK(R::compositum(r, s) == r, "compositum", C::name << " with itself");
    CHECK(R::isField != Z && R::contains_rationals != Z, "constants", C::name);
    if constexpr (K) {
      const NumberField Q;
      CHECK(Q.parameters->degree() == 1, "default", "NumberField() has degree " << Q.parameters->degree());
      CHECK(r != Q && Q == NumberField(), "equality", F->poly << " and the rationals");
      CHECK(R::compositum(r, Q) == r && R::compositum(Q, r) == r && R::compositum(Q, Q) == Q, "compositum", F->poly << " with the rationals");
      CHECK(r == NumberField(*F->K) && r.parameters == F->K, "constructors", F->poly);
      const auto again = eantic::renf_class::make(F->poly, "x", F->emb);
      CHECK(r == NumberField(again) && std::hash<R>()(r) == std::hash<R>()(NumberField(again)), "equality", F->poly << " created again");
      NF x = NF::random(*F, rng, 30);
      CHECK(NumberField(x.antic()) == r, "constructors", "field of " << x);
      const Field& G = rng.chance(1, 4) ? F->conjugate() : Field::any(rng);
      if (&G != F && G.poly == F->poly) tally("embeddings of the same field compared");
      const NumberField l(G.K);
      CHECK((r == l) == (&G == F) && (r != l) == (&G != F), "equality", F->poly << " and " << G.poly);
      if (&G != F) {
        try {
          NumberField c = R::compositum(r, l);
          CHECK(c != r && c != l, "compositum", F->poly << " and " << G.poly << " is " << *c.parameters);
        } catch (const std::logic_error&) {
          tally("composita of fields refused");
        }
      }
      // Elements of other fields.
      NF y = NF::random(G, rng, 40);
      at("coerce " + str(y) + " to " + F->poly);
      for (const auto& e : {y.antic(), eantic::renf_elem_class(y.c[0])}) {
        try {
          auto c = r.coerce(e);
          CHECK(c.parent() == *F->K, "coerce", y << " to " << F->poly << ": result is in " << c.parent());
          NF z = read(c, "coerce");
          IV i = z.enclose(300), j = e.is_rational() ? IV(static_cast<mpq_class>(e)) : y.enclose(300);
          CHECK(i.lo <= j.hi && j.lo <= i.hi, "coerce", e << " to " << F->poly << " is " << c);
          tally("elements brought into another field");
        } catch (const std::logic_error&) {
          CHECK(!e.is_rational() && &F->poly != &G.poly, "coerce", e << " to " << F->poly << " was refused");
          tally("elements not brought into another field");
        }
      }
    }
    tally("rings compared");
  }
};
}  // namespace

PROPERTY(C22) {
  anyRing(rng, [&](auto* tag) {
    using R = std::remove_pointer_t<decltype(tag)>;
    using C = Co<R>;
    Rings<R> E{&Field::any(rng), rng};
    for (int rep = 0; rep < 3; rep++) {
      auto some = [&] { return rng.chance(1, 12) ? C::of(E.F, mpq_class(rng.range(-1, 1))) : C::random(E.F, rng, rng.chance(1, 30) ? 2000UL : 120UL); };
      const auto x = some(), y = some();
      cover(hcomb(C::hash(x), C::hash(y)));
      if (index < 3 && rep == 0) sample(std::string(C::name) + ": " + str(x) + ", " + str(y));
      E.scalars(x);
      E.elements(x, y);
      E.facts(x);
    }
    E.ring();
  });
}
}  // namespace verif
