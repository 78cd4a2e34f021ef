// C23: the printed form of real numbers, modules, and elements.
#include <iomanip>

#include "elements.hpp"

namespace verif {
namespace {
template <typename T>
std::string print(const T& x, int digits = 6) {
  std::ostringstream os;
  os << std::setprecision(digits) << x;
  return os.str();
}
std::vector<std::string> split(const std::string& s, const std::string& by) {
  std::vector<std::string> r;
  size_t at = 0;
  for (size_t n; (n = s.find(by, at)) != std::string::npos; at = n + by.size()) r.push_back(s.substr(at, n - at));
  r.push_back(s.substr(at));
  return r;
}
double doubleOf(const Base& b) {
  if (b.q) return nearest(*b.q);
  for (long prec = 100;; prec *= 2) {
    IV i = b.at(prec);
    double lo = nearest(i.lo), hi = nearest(i.hi);
    if (lo == hi) return lo;
    if (prec > 20000) throw std::logic_error("model: double of a real number");
  }
}
bool eat(std::string& s, const std::string& prefix) {
  if (s.compare(0, prefix.size(), prefix) != 0) return false;
  s = s.substr(prefix.size());
  return true;
}

void single(const Base& b, int digits) {
  const std::string s = print(*b.x, digits);
  const std::string what = b.desc + " prints as " + s + " with " + str(digits) + " digits";
  at(what);
  std::string rest = s;
  if (b.q) {
    CHECK(s == str(*b.q), "rational", what);
    tally("rationals printed");
    return;
  }
  CHECK(eat(rest, "ℝ("), "format", what);
  if (b.range && b.range->lo == 0 && b.range->hi == 1) {
    CHECK(rest == print(doubleOf(b), digits) + "…)", "random", what << " but it is about " << print(doubleOf(b), 17));
    tally("random numbers printed");
    return;
  }
  // initial + ℝ(digits…)pe
  auto parts = split(rest, " + ");
  CHECK(parts.size() == 2, "format", what);
  auto initial = split(parts[0], "=");
  CHECK(initial.size() <= 2, "format", what);
  rest = parts[1];
  CHECK(eat(rest, "ℝ("), "format", what);
  const size_t close = rest.find("…)p");
  CHECK(close != std::string::npos, "format", what);
  const std::string inner = rest.substr(0, close);
  rest = rest.substr(close + strlen("…)p"));
  size_t used = 0;
  const long e = std::stol(rest, &used);
  rest = rest.substr(used);
  CHECK(eat(rest, ")"), "format", what);
  const double in = std::stod(inner);
  CHECK(in >= 0 && in <= 1, "inner", what);
  if (initial.size() == 2) {
    auto me = split(initial[1], "p");
    CHECK(me.size() == 2, "format", what);
    const Dy a{mpz_class(me[0]), mpz_class(me[1])};
    CHECK(print(nearest(a), digits) == initial[0], "initial", what << " but the first part is " << print(nearest(a), 17));
    const IV v = b.at(200 + (a.zero() ? 0 : std::max(0L, mpz_class(a.top() - e).get_si())));
    // The rest is between zero and one unit of 2^e.
    CHECK(v.hi >= a.q() && v.lo <= a.q() + pow2(e), "value", what << " but it is about " << print(doubleOf(b), 17));
    // and is determined by the digits of the inner number
    const double d = nearest(mpq_class((v.lo - a.q()) * pow2(-e)));
    CHECK(d >= 0 && d <= 1, "value", what << " but the rest is " << d << " units");
    tally("numbers in an interval compared with their printed parts");
  }
  const double x = doubleOf(b);
  if (!rest.empty()) {
    CHECK(rest == "[∼" + print(x, digits) + "]", "approximation", what << " but it is about " << print(x, 17));
    tally("numbers printed with an approximation");
  } else if (initial.size() == 2) {
    auto me = split(initial[1], "p");
    const Dy a{mpz_class(me[0]), mpz_class(me[1])};
    CHECK(nearest(a) == x || b.close, "approximation", what << " but it is about " << print(x, 17));
  }
  tally("numbers in an interval printed");
}

// A product prints as its factors in some order.
void product(World& w, const Mono& m, int digits) {
  const std::string s = print(*w.real(m), digits);
  at(s);
  std::multiset<std::string> want;
  for (size_t i = 0; i < m.size(); i++)
    if (m[i]) want.insert(print(*w.vars[i]->x, digits) + (m[i] == 1 ? "" : "^" + str(m[i])));
  if (want.empty()) want.insert(str(w.constant));
  auto got = split(s, "*");
  CHECK(want == std::multiset<std::string>(got.begin(), got.end()), "product", w.name(m) << " prints as " << s << w.legend());
  tally("products printed");
}

template <typename R>
struct Printer {
  using C = Co<R>;
  World& w;
  Elements<R> E;
  Rng& rng;
  Printer(World& w, Rng& rng) : w(w), E(w, rng), rng(rng) {}

  bool less(const Mono& a, const Mono& b) {
    for (long prec = 64;; prec *= 4) {
      IV x = w.value(a, prec), y = w.value(b, prec);
      if (x.hi < y.lo) return true;
      if (y.hi < x.lo) return false;
      if (prec > 300000) throw std::logic_error("model: order of generators");
    }
  }
  std::string expected(const Poly<C>& p) {
    std::string r;
    for (int sign : {1, -1}) {
      std::vector<Mono> ms;
      for (auto& [m, c] : p.t)
        if (C::sgn(c) == sign) ms.push_back(m);
      std::sort(ms.begin(), ms.end(), [&](auto& a, auto& b) { return less(a, b); });
      for (auto& m : ms) {
        auto c = p[m];
        if (sign < 0) c = -c;
        r += r.empty() ? (sign < 0 ? "-" : "") : (sign < 0 ? " - " : " + ");
        const bool unit = C::rational(c) == std::optional<mpq_class>(1);
        if (!unit) r += str(C::lib(c));
        const bool one = !deg(m) && w.constant == 1;
        if (!unit && !one) r += "*";
        if (unit || !one) r += print(*w.real(m));
      }
    }
    return r.empty() ? "0" : r;
  }
  void element(const Elem<R>& x) {
    at(E.show(x));
    const std::string want = expected(x.p), got = print(x.e);
    CHECK(got == want, "element", E.show(x) << " prints as " << got << " instead of " << want << w.legend());
    // whatever module it is written in
    Element<R> copy = x.e;
    const std::string simple = print(copy.simplify());
    CHECK(simple == want, "element", E.show(x) << " prints as " << simple << " instead of " << want << " once simplified" << w.legend());
    Elem<R> y = E.of(x.p, true);
    CHECK(print(y.e) == want, "element", E.show(y) << " prints as " << print(y.e) << " instead of " << want << w.legend());
    E.verify(x, "what was printed");
    tally("elements printed");
    if (x.p.t.size() > 1) tally("sums printed");
    for (auto& [m, c] : x.p.t)
      if (C::sgn(c) < 0) {
        tally("elements with negative coefficients printed");
        break;
      }
  }
  void module(const Elem<R>& x) {
    auto M = x.e.module();
    std::string want = std::is_same_v<R, IntegerRing> ? "ℤ-Module(" : std::is_same_v<R, RationalField> ? "ℚ-Module(" : "K-Module(";
    for (size_t i = 0; i < M->basis().size(); i++) want += (i ? ", " : "") + print(*M->basis()[i]);
    want += ")";
    CHECK(print(*M) == want, "module", "prints as " << print(*M) << " instead of " << want << w.legend());
    tally("modules printed");
  }
};
}  // namespace

PROPERTY(C23) {
  const int digits = rng.chance(1, 2) ? 6 : static_cast<int>(rng.range(1, 20));
  for (int k = 0; k < 3; k++) {
    Base b = randomBase(rng);
    cover(hstr(b.desc));
    if (index < 2 && k == 0) sample(print(*b.x, digits));
    single(b, digits);
    single(b, 6);
  }
  World w(rng, static_cast<int>(rng.range(1, 3)));
  w.rationalGenerator(rng);
  for (int k = 0; k < 2; k++) product(w, w.randomMono(5), digits);
  if (rng.chance(1, 20)) {
    Mono m = w.randomMono(4);
    m[rng.below(m.size())] += static_cast<int>(rng.range(20, 400));
    product(w, m, digits);
    tally("products of high degree printed");
  }
  anyRing(rng, [&](auto* tag) {
    using R = std::remove_pointer_t<decltype(tag)>;
    Printer<R> P(w, rng);
    auto x = rng.chance(1, 4) ? delicate(P.E, rng) : P.E.random(P.E.randomBasis(4, 3), rng.of({3UL, 60UL}));
    cover(P.E.hash(x));
    if (index < 5) sample(print(x.e));
    P.element(x);
    P.module(x);
    auto y = P.E.random(P.E.randomBasis(3, 2), 3);
    P.element(y);
    P.element({x.e + y.e, x.p + y.p, unite(x.basis, y.basis)});
  });
}
}  // namespace verif
