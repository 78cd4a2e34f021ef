// Elements of modules over Z, Q, and number fields together with a model: a
// polynomial in independent real numbers, with coefficients computed by GMP.
#ifndef VERIF_ELEMENTS_HPP
#define VERIF_ELEMENTS_HPP
#include <exact-real/element.hpp>
#include <exact-real/integer_ring.hpp>
#include <exact-real/module.hpp>
#include <exact-real/number_field.hpp>
#include <exact-real/rational_field.hpp>
#include <e-antic/renfxx.h>

#include <algorithm>
#include <boost/lexical_cast.hpp>
#include <cfloat>
#include <climits>
#include <cmath>

#include "nf.hpp"
#include "reals.hpp"

namespace verif {
using exactreal::Element;
using exactreal::IntegerRing;
using exactreal::Module;
using exactreal::NumberField;
using exactreal::RationalField;


// Coefficients.
template <typename R>
struct Co;
template <>
struct Co<IntegerRing> {
  using T = mpz_class;
  static constexpr const char* name = "Z";
  static T of(const Field*, const mpq_class& q) {
    if (q.get_den() != 1) throw std::logic_error("model: not an integer");
    return q.get_num();
  }
  static T random(const Field*, Rng& rng, unsigned long bits) { return rng.chance(1, 2) ? mpz_class(rng.range(-9, 9)) : randInt(rng, bits); }
  static mpz_class lib(const T& c) { return c; }
  static bool zero(const T& c) { return c == 0; }
  static std::optional<mpq_class> rational(const T& c) { return mpq_class(c); }
  static IV enclose(const T& c, long) { return IV(mpq_class(c)); }
  static mpq_class height(const T& c) { return abs(c); }
  static int sgn(const T& c) { return ::sgn(c); }
  static std::optional<T> quotient(const T& a, const T& b) {
    if (a % b != 0) return std::nullopt;
    return mpz_class(a / b);
  }
  static std::optional<T> read(const Field*, const mpz_class& c) { return c; }
  static IntegerRing ring(const Field*) { return {}; }
  static std::vector<mpq_class> flat(const T& c) { return {mpq_class(c)}; }
  static uint64_t hash(const T& c) { return hstr(c.get_str(62)); }
};
template <>
struct Co<RationalField> {
  using T = mpq_class;
  static constexpr const char* name = "Q";
  static T of(const Field*, const mpq_class& q) { return q; }
  static T random(const Field*, Rng& rng, unsigned long bits) {
    if (rng.chance(1, 3)) return mpq_class(rng.range(-9, 9));
    return randQ(rng, bits);
  }
  static mpq_class lib(const T& c) { return c; }
  static bool zero(const T& c) { return c == 0; }
  static std::optional<mpq_class> rational(const T& c) { return c; }
  static IV enclose(const T& c, long) { return IV(c); }
  static mpq_class height(const T& c) { return abs(c); }
  static int sgn(const T& c) { return ::sgn(c); }
  static std::optional<T> quotient(const T& a, const T& b) { return mpq_class(a / b); }
  static std::optional<T> read(const Field*, const mpq_class& c) {
    mpq_class d = c;
    d.canonicalize();
    if (d.get_num() != c.get_num() || d.get_den() != c.get_den()) return std::nullopt;
    return c;
  }
  static RationalField ring(const Field*) { return {}; }
  static std::vector<mpq_class> flat(const T& c) { return {c}; }
  static uint64_t hash(const T& c) { return hashQ(c); }
};
template <>
struct Co<NumberField> {
  using T = NF;
  static constexpr const char* name = "K";
  static T of(const Field* F, const mpq_class& q) { return NF(*F, q); }
  static T random(const Field* F, Rng& rng, unsigned long bits) {
    if (rng.chance(1, 4)) return NF(*F, mpq_class(rng.range(-5, 5)));
    return NF::random(*F, rng, bits > 1000 ? 400UL : bits);
  }
  static eantic::renf_elem_class lib(const T& c) { return c.antic(); }
  static bool zero(const T& c) { return c.zero(); }
  static std::optional<mpq_class> rational(const T& c) { return c.rational() ? std::optional<mpq_class>(c.c[0]) : std::nullopt; }
  static IV enclose(const T& c, long prec) { return c.enclose(prec); }
  static mpq_class height(const T& c) { return c.height(); }
  static int sgn(const T& c) { return c.sgn(); }
  static std::optional<T> quotient(const T& a, const T& b) { return a * inverse(b); }
  static std::optional<T> read(const Field* F, const eantic::renf_elem_class& c) {
    NF r(*F);
    if (!(c.parent() == *F->K) && !c.is_rational()) return std::nullopt;
    auto nums = c.num_vector();
    if (nums.size() > r.c.size()) return std::nullopt;
    for (size_t i = 0; i < nums.size(); i++) {
      r.c[i] = mpq_class(nums[i], c.den());
      r.c[i].canonicalize();
    }
    return r;
  }
  static NumberField ring(const Field* F) { return NumberField(F->K); }
  static std::vector<mpq_class> flat(const T& c) { return c.c; }
  static uint64_t hash(const T& c) { return hashNF(c); }
};

// Monomials: exponents of the variables; all zero for 1.
using Mono = std::vector<int>;
inline Mono operator*(const Mono& a, const Mono& b) {
  Mono r = a;
  for (size_t i = 0; i < r.size(); i++) r[i] += b[i];
  return r;
}
inline int deg(const Mono& m) {
  int r = 0;
  for (int e : m) r += e;
  return r;
}

template <typename C>
struct Poly {
  std::map<Mono, typename C::T> t;  // without zeros
  const Field* F = nullptr;
  explicit Poly(const Field* F = nullptr) : F(F) {}
  bool zero() const { return t.empty(); }
  void add(const Mono& m, const typename C::T& c) {
    auto it = t.find(m);
    if (it == t.end()) {
      if (!C::zero(c)) t.emplace(m, c);
      return;
    }
    it->second = it->second + c;
    if (C::zero(it->second)) t.erase(it);
  }
  typename C::T operator[](const Mono& m) const {
    auto it = t.find(m);
    return it == t.end() ? C::of(F, 0) : it->second;
  }
  bool operator==(const Poly& o) const { return t == o.t; }
  Poly scaled(const typename C::T& c) const {
    Poly r(F);
    for (auto& [m, x] : t) r.add(m, x * c);
    return r;
  }
  uint64_t hash() const {
    uint64_t h = 77;
    for (auto& [m, c] : t) {
      for (int e : m) h = hcomb(h, e);
      h = hcomb(h, C::hash(c));
    }
    return h;
  }
};
template <typename C>
Poly<C> operator+(Poly<C> a, const Poly<C>& b) {
  for (auto& [m, c] : b.t) a.add(m, c);
  return a;
}
template <typename C>
Poly<C> operator-(const Poly<C>& a) {
  Poly<C> r(a.F);
  for (auto& [m, c] : a.t) r.add(m, -c);
  return r;
}
template <typename C>
Poly<C> operator-(const Poly<C>& a, const Poly<C>& b) { return a + (-b); }
template <typename C>
Poly<C> operator*(const Poly<C>& a, const Poly<C>& b) {
  Poly<C> r(a.F);
  for (auto& [m, c] : a.t)
    for (auto& [n, d] : b.t) r.add(m * n, c * d);
  return r;
}
// The quotient if b divides a.  Any monomial order will do; this uses the one of std::map.
template <typename C>
std::optional<Poly<C>> quotient(Poly<C> a, const Poly<C>& b) {
  Poly<C> q(a.F);
  while (!a.zero()) {
    auto [m, c] = *a.t.rbegin();
    auto [n, d] = *b.t.rbegin();
    Mono k(m.size());
    for (size_t i = 0; i < m.size(); i++)
      if ((k[i] = m[i] - n[i]) < 0) return std::nullopt;
    auto e = C::quotient(c, d);
    if (!e) return std::nullopt;
    q.add(k, *e);
    Poly<C> s(a.F);
    s.add(k, *e);
    a = a - s * b;
  }
  return q;
}

// A few independent real numbers and the products of these.
struct World {
  const Field* F;
  std::vector<std::unique_ptr<Base>> vars;
  std::map<Mono, RealPtr> reals;
  std::map<const RealNumber*, Mono> monos;
  Rng rng;
  // whether there are elements of modules over the rationals among those over number fields
  bool mixed = false;
  // whether some elements have been changed since they were created
  bool pasts = true;
  // what stands for the empty monomial; without products if this is not 1
  mpq_class constant = 1;
  // what there is more of than usual
  enum class Scale { NONE, VARIABLES, TERMS, DEGREE, COEFFICIENTS } scale = Scale::NONE;

  // tame: only variables of moderate size
  World(Rng& r, int n, bool tame = false) : F(&Field::any(r)), rng(r.next()) {
    if (n && r.chance(1, 24)) {
      scale = r.of({Scale::VARIABLES, Scale::TERMS, Scale::DEGREE, Scale::COEFFICIENTS});
      if (scale == Scale::DEGREE) tame = true;  // or else floors are too large
      if (scale == Scale::VARIABLES) n += static_cast<int>(r.range(3, 6));
      if (scale == Scale::TERMS) n = std::max(n, static_cast<int>(r.range(2, 4)));
      static const char* names[] = {"", "worlds with many variables", "worlds with many terms", "worlds with high degrees", "worlds with large coefficients"};
      tally(names[static_cast<int>(scale)]);
    }
    while (static_cast<int>(vars.size()) < n) {
      auto b = std::make_unique<Base>(randomBase(r, false));
      if (tame) {
        IV i = b->at(20);
        mpq_class s = absq(i.lo) > absq(i.hi) ? absq(i.lo) : absq(i.hi);
        if (s > pow2(40) || s < pow2(-40)) continue;
      }
      vars.push_back(std::move(b));
    }
  }
  // Use a rational generator other than 1, sometimes.
  void rationalGenerator(Rng& r) {
    if (!r.chance(1, 6)) return;
    constant = r.chance(1, 2) ? mpq_class(r.of({1, -1}) * r.range(1, 9), r.range(1, 9)) : randQ(r, r.of({20UL, 90UL}));
    constant.canonicalize();
    if (constant == 0) constant = -1;
    tally("worlds with a rational generator");
  }
  Mono one() const { return Mono(vars.size(), 0); }
  Mono var(size_t i) const {
    Mono m = one();
    m[i] = 1;
    return m;
  }
  RealPtr real(const Mono& m) {
    auto it = reals.find(m);
    if (it != reals.end()) return it->second;
    std::vector<RealPtr> parts;
    for (size_t i = 0; i < m.size(); i++)
      for (int k = 0; k < m[i]; k++) parts.push_back(vars[i]->x);
    if (parts.empty()) parts.push_back(RealNumber::rational(constant));
    while (parts.size() > 1) {
      size_t i = rng.below(parts.size());
      std::swap(parts[i], parts.back());
      RealPtr p = parts.back();
      parts.pop_back();
      i = rng.below(parts.size());
      parts[i] = *parts[i] * *p;
    }
    reals[m] = parts[0];
    monos[parts[0].get()] = m;
    return parts[0];
  }
  std::string name(const Mono& m) const {
    std::string r;
    for (size_t i = 0; i < m.size(); i++)
      if (m[i]) r += (r.empty() ? "x" : "*x") + str(i) + (m[i] == 1 ? "" : "^" + str(m[i]));
    return r.empty() ? str(constant) : r;
  }
  std::string legend() const {
    std::string r;
    for (size_t i = 0; i < vars.size(); i++) r += (i ? "; x" : " where x") + str(i) + " = " + vars[i]->desc;
    return r;
  }
  IV value(const Mono& m, long prec) const {
    if (deg(m) == 0) return IV(constant);
    IV r(mpq_class(1));
    for (size_t i = 0; i < m.size(); i++) {
      if (!m[i]) continue;
      IV y = vars[i]->at(prec + 8);
      for (int k = 0; k < m[i]; k++) r = outward(r * y, prec + 10);
    }
    return r;
  }
  template <typename C>
  IV value(const Poly<C>& p, long prec) const {
    IV r(mpq_class(0));
    for (auto& [m, c] : p.t) r = r + C::enclose(c, prec) * value(m, prec);
    return r;
  }
  Mono randomMono(int maxdeg) {
    Mono m = one();
    if (m.empty()) return m;
    int d = static_cast<int>(rng.below(static_cast<uint64_t>(maxdeg) + 1));
    for (int i = 0; i < d; i++) m[rng.below(m.size())]++;
    return m;
  }
};

// An element and what it should be.
template <typename R>
struct Elem {
  using C = Co<R>;
  Element<R> e;
  Poly<C> p;
  std::vector<Mono> basis;  // generators of its module
};

template <typename R>
struct Elements {
  using C = Co<R>;
  World& w;
  Rng& rng;
  Elements(World& w, Rng& rng) : w(w), rng(rng) {}

  std::shared_ptr<const Module<R>> module(const std::vector<Mono>& basis) {
    typename Module<R>::Basis b;
    for (auto& m : basis) b.push_back(w.real(m));
    for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[rng.below(i)]);
    if constexpr (std::is_same_v<R, NumberField>) return Module<R>::make(b, C::ring(w.F));
    else return rng.chance(1, 2) ? Module<R>::make(b) : Module<R>::make(b, C::ring(w.F));
  }
  // many: the rank of modules with many generators, in worlds that have such
  std::vector<Mono> randomBasis(int maxrank, int maxdeg, int many = 36) {
    std::set<Mono> s;
    int n = static_cast<int>(rng.below(static_cast<uint64_t>(maxrank) + 1));
    if (rng.chance(2, 3)) s.insert(w.one());
    if (w.scale == World::Scale::VARIABLES) n += 3;
    if (w.scale == World::Scale::TERMS && rng.chance(1, 2)) {
      n = static_cast<int>(rng.range(6, maxrank < 4 && many == 36 ? 20 : many));
      maxdeg += 2;
    }
    if (w.scale == World::Scale::DEGREE) {
      maxdeg = static_cast<int>(rng.range(4, 12));
      if (rng.chance(1, 6)) {
        Mono m = w.randomMono(2);
        m[rng.below(m.size())] += static_cast<int>(rng.range(40, 140));
        s.insert(m);
      }
    }
    for (int i = 0; i < n; i++) s.insert(w.randomMono(maxdeg));
    return {s.begin(), s.end()};
  }
  // Ask an element for everything that it could remember.
  void touch(const Element<R>& e) {
    switch (rng.below(8)) {
      case 0: (void)static_cast<double>(e); break;
      case 1: (void)e.floor(); break;
      case 2: (void)e.ceil(); break;
      case 3: (void)(e < rng.range(-1, 1)); break;
      case 4: (void)str(e); break;
      case 5: (void)std::hash<Element<R>>()(e); break;
      case 6: (void)static_cast<std::optional<mpq_class>>(e); [[fallthrough]];
      default: {
        mpq_class q(rng.range(-9, 9), 7);
        q.canonicalize();
        (void)(e > q);
      }
    }
    for (long prec : {53L, 54L, 55L, 64L, 65L, 128L})
      if (rng.chance(1, 2)) (void)e.arb(prec);
    if (rng.chance(1, 2)) (void)e.unit(), (void)e.rationalCoefficients(), (void)static_cast<bool>(e), (void)(e == 0);
    if (rng.chance(1, 2)) (void)static_cast<double>(e), (void)e.floor();
  }
  // Does what an element says about its value fit?
  void consistent(const Elem<R>& x, const std::string& what);

  // The same element, but one that has been something else before.
  Element<R> lived(const Element<R>& x) {
    const auto M = x.module();
    auto c = x.coefficients();
    if (c.empty()) return x;
    auto d = c;
    Element<R> y = x;
    auto scalar = [&](auto&& op, int k) {
      switch (rng.below(6)) {
        case 0: op(static_cast<short>(k)); break;
        case 1: op(k); break;
        case 2: op(static_cast<long>(k)); break;
        case 3: op(static_cast<long long>(k)); break;
        case 4: op(mpz_class(k)); break;
        default:
          if constexpr (std::is_same_v<R, NumberField>)
            if (rng.chance(1, 2)) {
              op(eantic::renf_elem_class(k));
              break;
            }
          op(mpq_class(k));
      }
    };
    switch (rng.below(9)) {
      case 0:
      case 1: {
        // multiplied or divided by a unit
        for (auto& a : d) a = -a;
        y = Element<R>(M, d);
        touch(y);
        if (rng.chance(1, 2)) scalar([&](const auto& k) { y *= k; }, -1);
        else scalar([&](const auto& k) { y /= k; }, -1);
        break;
      }
      case 2:
      case 3: {
        // something was added or subtracted
        for (auto& a : d) a = static_cast<int>(rng.range(-9, 9));
        const Element<R> other(M, d);
        if (rng.chance(1, 2)) {
          for (size_t i = 0; i < c.size(); i++) c[i] = c[i] - d[i];
          y = Element<R>(M, c);
          touch(y);
          y += other;
        } else {
          for (size_t i = 0; i < c.size(); i++) c[i] = c[i] + d[i];
          y = Element<R>(M, c);
          touch(y);
          y -= other;
        }
        break;
      }
      case 4: {
        // divided
        const int k = static_cast<int>(rng.range(2, 9));
        for (auto& a : d) a *= k;
        y = Element<R>(M, d);
        touch(y);
        scalar([&](const auto& k) { y /= k; }, k);
        break;
      }
      case 5: {
        // multiplied
        const int k = static_cast<int>(rng.range(2, 9));
        if constexpr (std::is_same_v<R, IntegerRing>)
          for (auto& a : d)
            if (a % k != 0) return x;
        for (auto& a : d) a /= k;
        y = Element<R>(M, d);
        touch(y);
        scalar([&](const auto& k) { y *= k; }, k);
        break;
      }
      case 6: {
        // assigned
        for (auto& a : d) a = static_cast<int>(rng.range(-9, 9));
        y = Element<R>(M, d);
        touch(y);
        Element<R> z = x;
        switch (rng.below(3)) {
          case 0: y = z; break;
          case 1: y = std::move(z); break;
          default: {
            using std::swap;
            swap(y, z);
          }
        }
        break;
      }
      case 7: {
        // copied, and the copy changed
        touch(y);
        Element<R> z = y;
        if (rng.chance(1, 2)) z *= 2;
        else z += z;
        touch(z);
        break;
      }
      default: {
        // written in another module
        y.simplify();
        touch(y);
        y.promote(M);
      }
    }
    if (rng.chance(1, 3)) touch(y);
    tally("elements with a past");
    return y;
  }
  Elem<R> build(const std::vector<Mono>& basis, const Poly<C>& p) {
    Elem<R> x = create(basis, p);
    if (w.pasts && rng.chance(1, 5)) x.e = lived(x.e);
    return x;
  }
  Elem<R> create(const std::vector<Mono>& basis, const Poly<C>& p) {
    auto M = module(basis);
    using E = std::decay_t<decltype(C::lib(C::of(w.F, 0)))>;
    std::vector<E> c;
    for (auto& g : M->basis()) c.push_back(C::lib(p[w.monos.at(g.get())]));
    if constexpr (std::is_same_v<R, NumberField>) {
      bool rational = true;
      for (auto& [m, x] : p.t) rational = rational && C::rational(x);
      if (rational && rng.chance(1, 3)) {
        // what Module::make(basis) and conversions from elements over the integers create
        w.mixed = true;
        tally("elements over the rationals among those over number fields");
        for (auto& x : c) x = eantic::renf_elem_class(static_cast<mpq_class>(x));
        return {Element<R>(Module<R>::make(M->basis()), c), p, basis};
      }
    }
    return {Element<R>(M, c), p, basis};
  }
  Elem<R> random(const std::vector<Mono>& basis, unsigned long bits = 60) {
    if (w.scale == World::Scale::COEFFICIENTS) bits = rng.of({130UL, 400UL, 1100UL, 3000UL});
    Poly<C> p(w.F);
    for (auto& m : basis)
      if (!rng.chance(1, 6)) p.add(m, C::random(w.F, rng, bits));
    return build(basis, p);
  }
  // An element in the smallest possible module, or a bit more than that.
  Elem<R> of(const Poly<C>& p, bool extra = false) {
    std::set<Mono> s;
    for (auto& [m, c] : p.t) s.insert(m);
    if (extra)
      for (auto& m : randomBasis(2, 2)) s.insert(m);
    return build({s.begin(), s.end()}, p);
  }
  std::string show(const Poly<C>& p) const {
    std::string r;
    for (auto& [m, c] : p.t) r += (r.empty() ? "" : " + ") + str(c) + "*" + w.name(m);
    return std::string(C::name) + "[" + (r.empty() ? "0" : r) + "]";
  }
  std::string show(const Elem<R>& x) const {
    std::string r = show(x.p) + " in <";
    for (auto& m : x.basis) r += w.name(m) + ",";
    return r + ">";
  }
  // Is this element what it should be?  With basis, also that its module is as expected.
  void verify(const Elem<R>& x, const std::string& what, bool basis = true, bool ring = true) {
    for (auto& m : x.basis) w.real(m);
    for (auto& [m, c] : x.p.t) w.real(m);
    auto M = x.e.module();
    auto context = [&] { return what + " should be " + show(x) + w.legend(); };
    std::set<Mono> gens;
    Poly<C> p(w.F);
    auto coefficients = x.e.coefficients();
    CHECK(coefficients.size() == M->basis().size() && static_cast<size_t>(M->rank()) == M->basis().size(), "rank", context() << ": number of coefficients " << coefficients.size() << ", rank " << M->rank());
    for (size_t i = 0; i < coefficients.size(); i++) {
      auto g = M->basis()[i];
      auto it = w.monos.find(g.get());
      auto c = C::read(w.F, coefficients[i]), d = C::read(w.F, x.e[static_cast<exactreal::size>(i)]);
      CHECK(c && d, "coefficient", context() << ": coefficient " << i << " is " << coefficients[i]);
      CHECK(*c == *d, "coefficient", context() << ": operator[] and coefficients() are different");
      if (it == w.monos.end()) CHECK(C::zero(*c), "generator", context() << ": unexpected generator " << *g);
      else {
        CHECK(gens.insert(it->second).second, "generator", context() << ": repeated generator " << *g);
        p.add(it->second, *c);
      }
      if (i) CHECK(M->basis()[i - 1]->deglex(*g), "order", context() << ": generators are not in order");
    }
    CHECK(p == x.p, "value", context() << " but it is " << show(p));
    CHECK(static_cast<bool>(x.e) == !x.p.zero(), "bool", context() << ": conversion to bool");
    if (basis) CHECK(gens == std::set<Mono>(x.basis.begin(), x.basis.end()) && gens.size() == coefficients.size(), "module", context() << " but its module is " << *M);
    if (!M->basis().empty() && ring && (basis || !x.p.zero())) {
      bool expected = M->ring() == C::ring(w.F);
      if constexpr (std::is_same_v<R, NumberField>)
        if (w.mixed && !expected) {
          // fine if that is all the ring it needs
          expected = M->ring() == NumberField();
          for (auto& c : coefficients) expected = expected && c.is_rational();
        }
      CHECK(expected, "ring", context() << ": not over the expected ring");
    }
    tally("elements checked");
  }
  uint64_t hash(const Elem<R>& x) const {
    uint64_t h = x.p.hash();
    for (auto& m : x.basis)
      for (int e : m) h = hcomb(h, e);
    return hcomb(h, hstr(w.legend()));
  }
};

inline std::vector<Mono> unite(const std::vector<Mono>& a, const std::vector<Mono>& b) {
  std::set<Mono> s(a.begin(), a.end());
  s.insert(b.begin(), b.end());
  return {s.begin(), s.end()};
}
inline std::vector<Mono> products(const std::vector<Mono>& a, const std::vector<Mono>& b) {
  std::set<Mono> s;
  for (auto& m : a)
    for (auto& n : b) s.insert(m * n);
  return {s.begin(), s.end()};
}

inline mpz_class bigint(long long v) { return mpz_class(std::to_string(v)); }
inline mpz_class bigint(unsigned long long v) { return mpz_class(std::to_string(v)); }
template <typename T>
mpz_class bigint(T v) {
  if constexpr (std::is_signed_v<T>) return bigint(static_cast<long long>(v));
  else return bigint(static_cast<unsigned long long>(v));
}

// Call f with a random non-zero scalar of a random primitive type.
template <typename F>
void primitive(Rng& rng, F&& f) {
  auto pick = [&](auto zero) {
    using T = decltype(zero);
    T v;
    switch (rng.below(5)) {
      case 0: v = std::numeric_limits<T>::max(); break;
      case 1: v = std::numeric_limits<T>::min(); break;
      case 2: v = static_cast<T>(rng.next()); break;
      default: v = static_cast<T>(rng.range(-12, 12));
    }
    if (v == 0) v = 1;
    return v;
  };
  switch (rng.below(8)) {
    case 0: f(pick(short())); break;
    case 1: f(pick(static_cast<unsigned short>(0))); break;
    case 2: f(pick(0)); break;
    case 3: f(pick(0u)); break;
    case 4: f(pick(0l)); break;
    case 5: f(pick(0ul)); break;
    case 6: f(pick(0ll)); break;
    default: f(pick(0ull));
  }
}

template <typename R>
std::vector<Mono> basisOf(World& w, const Element<R>& e) {
  std::vector<Mono> r;
  auto M = e.module();
  for (auto& g : M->basis()) {
    auto it = w.monos.find(g.get());
    if (it == w.monos.end()) fail("generator", "unexpected generator " + str(*g) + w.legend());
    r.push_back(it->second);
  }
  return r;
}


template <typename C>
int signTruth(World& w, const Poly<C>& p) {
  if (p.zero()) return 0;
  if (p.t.size() == 1 && deg(p.t.begin()->first) == 0) return C::sgn(p.t.begin()->second) * sgn(w.constant);
  for (long prec = 64;; prec *= 4) {
    IV i = w.value(p, prec);
    if (i.lo > 0) return 1;
    if (i.hi < 0) return -1;
    if (prec > 300000) throw std::logic_error("model: sign of an element");
  }
}
template <typename C>
std::optional<mpq_class> rationalTruth(World& w, const Poly<C>& p) {
  if (p.zero()) return mpq_class(0);
  if (p.t.size() == 1 && deg(p.t.begin()->first) == 0)
    if (auto c = C::rational(p.t.begin()->second)) return mpq_class(*c * w.constant);
  return std::nullopt;
}
// The sign of p - q.
template <typename C>
int compareTruth(World& w, const Poly<C>& p, const mpq_class& q) {
  if (auto r = rationalTruth(w, p)) return ::sgn(mpq_class(*r - q));
  if constexpr (!std::is_same_v<typename C::T, mpz_class>)
    if (p.t.size() == 1 && deg(p.t.begin()->first) == 0) return C::sgn(p.t.begin()->second * C::of(w.F, w.constant) - C::of(w.F, q));
  for (long prec = 64;; prec *= 4) {
    IV i = w.value(p, prec);
    if (i.lo > q) return 1;
    if (i.hi < q) return -1;
    if (prec > 300000) throw std::logic_error("model: sign of the difference of an element and a rational");
  }
}
template <typename C>
mpz_class floorTruth(World& w, const Poly<C>& p) {
  if (auto q = rationalTruth(w, p)) return floorQ(*q);
  for (long prec = 64;; prec *= 4) {
    IV i = w.value(p, prec);
    mpz_class a = floorQ(i.lo), b = floorQ(i.hi);
    if (a == b) return a;
    if (prec > 300000) throw std::logic_error("model: floor of an element");
  }
}
template <typename C>
double nearestTruth(World& w, const Poly<C>& p) {
  if (auto q = rationalTruth(w, p)) return nearest(*q);
  for (long prec = 128;; prec *= 4) {
    IV i = w.value(p, prec);
    double a = nearest(i.lo), b = nearest(i.hi);
    if (a == b) return a;
    if (prec > 300000) throw std::logic_error("model: nearest double of an element");
  }
}

template <typename R>
void Elements<R>::consistent(const Elem<R>& x, const std::string& what) {
  auto context = [&] { return what + ": " + show(x) + w.legend(); };
  for (long prec : {53L, 54L, 55L, 64L, 65L, 128L}) {
    if (rng.chance(1, 2)) continue;
    auto a = x.e.arb(prec);
    auto i = iv(a.arb_t());
    IV t = w.value(x.p, prec + 64);
    CHECK(i && i->lo <= t.hi && t.lo <= i->hi, "stale", context() << " has arb(" << prec << ") " << verif::show(a.arb_t()));
  }
  if (rng.chance(1, 2)) {
    const double g = static_cast<double>(x.e), e = nearestTruth(w, x.p);
    CHECK(g == e, "stale", context() << " converts to " << Dy::ofDouble(g) << " and not to " << Dy::ofDouble(e));
  }
  if (rng.chance(1, 2)) {
    const mpz_class g = x.e.floor(), e = floorTruth(w, x.p);
    CHECK(g == e, "stale", context() << " has floor " << g << " and not " << e);
  }
  const int sign = signTruth(w, x.p);
  CHECK((x.e < 0) == (sign < 0) && (x.e > 0) == (sign > 0) && (x.e == 0) == (sign == 0), "stale", context() << " compared with 0");
  tally("elements asked again after a change");
}

// The midpoint of the value rounded to a dyadic number with this many bits
// (or so that the absolute error is 2^-bits.)
template <typename C>
mpq_class approximation(World& w, const Poly<C>& p, long bits, bool absolute) {
  IV i = w.value(p, bits + 200);
  mpq_class m = (i.lo + i.hi) / 2;
  if (m == 0) return m;
  if (absolute) {
    mpq_class s = m * pow2(bits);
    return mpq_class(floorQ(s)) * pow2(-bits);
  }
  Dy d = stickyDy(m, bits + 3);
  return roundTo(d.m, d.e, bits, Rnd::NEAR).q();
}

// An element whose terms cancel almost completely, or that is close to an integer (etc.)
template <typename R>
Elem<R> delicate(Elements<R>& E, Rng& rng, std::optional<mpq_class> near = std::nullopt) {
  using C = Co<R>;
  World& w = E.w;
  Elem<R> x = E.random(E.randomBasis(3, 3, 80), 60);
  if (x.basis.size() > 24) tally("elements with more than 24 generators");
  if (!near && rng.chance(1, 3)) return x;
  Poly<C> p = x.p;
  long bits = rng.of({1L, 40L, 60L, 64L, 120L, rng.range(1, 700)});
  // (number fields are too slow for more)
  if (rng.chance(1, 30)) bits = !std::is_same_v<R, NumberField> && rng.chance(1, 6) ? rng.range(5000, 70000) : rng.range(700, 5000);
  if (p.zero()) bits = 10;
  if constexpr (std::is_same_v<R, IntegerRing>) {
    // scale a variable up and remove (about) its integer part
    p = p.scaled(shl(mpz_class(1), static_cast<unsigned long>(bits > 700 ? bits : static_cast<long>(rng.below(200)))));
    mpq_class a = approximation(w, p, 0, true);
    mpq_class c = (floorQ(mpq_class(near.value_or(rng.range(-3, 3)))) - a) / w.constant;
    p.add(w.one(), floorQ(c));
  } else {
    mpq_class a = approximation(w, p, bits, rng.chance(1, 2));
    if (bits && bits < 60 && rng.chance(1, 4)) a *= 3;
    mpq_class c = near.value_or(rng.chance(1, 2) ? mpq_class(rng.range(-4, 4)) : mpq_class(0)) - a;
    p.add(w.one(), C::of(w.F, c / w.constant));
  }
  return E.of(p, rng.chance(1, 4));
}

// Run f for one of the rings.
template <typename F>
void anyRing(Rng& rng, F&& f) {
  switch (rng.below(3)) {
    case 0: f(static_cast<IntegerRing*>(nullptr)); break;
    case 1: f(static_cast<RationalField*>(nullptr)); break;
    default: f(static_cast<NumberField*>(nullptr));
  }
}
}  // namespace verif
#endif
