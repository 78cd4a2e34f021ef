// A model of real embedded number fields, written against GMP only.
#ifndef VERIF_NF_HPP
#define VERIF_NF_HPP
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <memory>
#include <vector>

#include "model.hpp"

namespace verif {

struct Field {
  std::string poly, emb;
  std::vector<long> f;      // coefficients of the minimal polynomial
  mutable mpq_class lo, hi;  // isolating interval, refined on demand
  boost::intrusive_ptr<const eantic::renf_class> K;

  Field(const std::string& poly, const std::string& emb, std::vector<long> f, const mpq_class& lo, const mpq_class& hi) : poly(poly), emb(emb), f(f), lo(lo), hi(hi), K(eantic::renf_class::make(poly, "x", emb)) {}
  size_t degree() const { return f.size() - 1; }
  mpq_class eval(const mpq_class& x) const {
    mpq_class r = 0;
    for (size_t i = f.size(); i-- > 0;) r = r * x + f[i];
    return r;
  }
  // Interval of width at most 2^-prec around the generator.
  IV root(long prec) const {
    int s = ::sgn(eval(lo));
    const mpq_class w = pow2(-prec);
    while (hi - lo > w) {
      mpq_class m = (lo + hi) / 2;
      (::sgn(eval(m)) == s ? lo : hi) = m;
    }
    return {lo, hi};
  }
  static const std::vector<Field>& all() {
    static const std::vector<Field> fields = [] {
      std::vector<Field> r;
      r.emplace_back("x^2 - 2", "1.4 +/- 1", std::vector<long>{-2, 0, 1}, 1, 2);
      r.emplace_back("x^2 - x - 1", "1.6 +/- 0.5", std::vector<long>{-1, -1, 1}, 1, 2);
      r.emplace_back("x^3 - 2", "1.2 +/- 1", std::vector<long>{-2, 0, 0, 1}, 1, 2);
      r.emplace_back("x^2 - 3", "-1.7 +/- 1", std::vector<long>{-3, 0, 1}, -2, -1);
      r.emplace_back("x^4 - 4*x^2 + 2", "1.8 +/- 0.1", std::vector<long>{2, 0, -4, 0, 1}, mpq_class(3, 2), 2);
      r.emplace_back("x^3 - 3*x - 1", "-0.3 +/- 0.1", std::vector<long>{-1, -3, 0, 1}, mpq_class(-1, 2), 0);
      r.emplace_back("2*x^2 - 3", "1.2 +/- 0.1", std::vector<long>{-3, 0, 2}, 1, 2);
      r.emplace_back("x^5 - x - 1", "1.1 +/- 0.2", std::vector<long>{-1, -1, 0, 0, 0, 1}, 1, 2);
      r.emplace_back("x^8 - x - 1", "1.1 +/- 0.1", std::vector<long>{-1, -1, 0, 0, 0, 0, 0, 0, 1}, 1, mpq_class(6, 5));
      r.emplace_back("x^2 - 1000000007", "31622 +/- 10", std::vector<long>{-1000000007, 0, 1}, 31622, 31623);
      // other embeddings of the same fields
      r.emplace_back("x^2 - 2", "-1.4 +/- 1", std::vector<long>{-2, 0, 1}, -2, -1);
      r.emplace_back("x^3 - 3*x - 1", "1.9 +/- 0.1", std::vector<long>{-1, -3, 0, 1}, mpq_class(3, 2), 2);
      return r;
    }();
    return fields;
  }
  // Another field with the same polynomial if there is one.
  const Field& conjugate() const {
    for (auto& G : all())
      if (&G != this && G.poly == poly) return G;
    return *this;
  }
  static const Field& any(Rng& rng) { return all()[rng.below(all().size())]; }
};

struct NF {
  const Field* F;
  std::vector<mpq_class> c;  // always F->degree() many

  explicit NF(const Field& F, const mpq_class& q = 0) : F(&F), c(F.degree()) { c[0] = q; }
  static NF random(const Field& F, Rng& rng, unsigned long maxbits) {
    NF r(F);
    int mode = static_cast<int>(rng.below(5));
    for (auto& x : r.c) {
      switch (mode) {
        case 0: x = mpq_class(randInt(rng, maxbits)); break;
        case 1: x = rng.range(-3, 3); break;
        case 2: x = rng.chance(1, 2) ? mpq_class(0) : randQ(rng, maxbits); break;
        default: x = mpq_class(rng.range(-20, 20), rng.range(1, 6)); x.canonicalize();
      }
    }
    if (mode == 4)
      for (size_t i = 1; i < r.c.size(); i++) r.c[i] = 0;  // rational
    return r;
  }
  static NF gen(const Field& F) {
    NF r(F);
    r.c[1] = 1;
    return r;
  }
  bool zero() const {
    for (auto& x : c)
      if (x != 0) return false;
    return true;
  }
  bool rational() const {
    for (size_t i = 1; i < c.size(); i++)
      if (c[i] != 0) return false;
    return true;
  }
  bool operator==(const NF& o) const { return c == o.c; }
  bool operator!=(const NF& o) const { return !(*this == o); }
  eantic::renf_elem_class antic() const { return eantic::renf_elem_class(*F->K, c); }

  // An enclosure of width at most about height()·2^-prec.
  IV enclose(long prec) const {
    if (rational()) return IV(c[0]);
    IV x = F->root(prec + 10 + 2 * static_cast<long>(c.size()));
    IV r(mpq_class(0));
    for (size_t i = c.size(); i-- > 0;) r = outward(r * x + IV(c[i]), prec + 40 + static_cast<long>(bits(F->lo.get_den()) / 64));
    return r;
  }
  // An upper bound on the sum of the absolute values of the terms.
  mpq_class height() const {
    mpq_class r = 0, p = 1, x = abs(F->lo) > abs(F->hi) ? abs(F->lo) : abs(F->hi);
    if (bits(x.get_den()) > 200) x = outward(IV(x), 50).hi;
    for (auto& y : c) {
      r += abs(y) * p;
      p *= x;
    }
    return r;
  }
  int sgn() const {
    if (zero()) return 0;
    if (rational()) return ::sgn(c[0]);
    for (long prec = 64;; prec *= 2) {
      IV i = enclose(prec);
      if (i.lo > 0) return 1;
      if (i.hi < 0) return -1;
      if (prec > 100000) throw std::logic_error("model: sign of a number field element");
    }
  }
  mpz_class floor() const {
    if (rational()) return floorQ(c[0]);
    for (long prec = 64;; prec *= 2) {
      IV i = enclose(prec);
      mpz_class a = floorQ(i.lo), b = floorQ(i.hi);
      if (a == b) return a;
      if (prec > 100000) throw std::logic_error("model: floor of a number field element");
    }
  }
};
inline NF operator+(NF a, const NF& b) {
  for (size_t i = 0; i < a.c.size(); i++) a.c[i] += b.c[i];
  return a;
}
inline NF operator-(NF a, const NF& b) {
  for (size_t i = 0; i < a.c.size(); i++) a.c[i] -= b.c[i];
  return a;
}
inline NF operator-(const NF& a) { return NF(*a.F) - a; }
inline NF operator*(const NF& a, const NF& b) {
  const auto& f = a.F->f;
  const size_t d = a.c.size();
  std::vector<mpq_class> p(2 * d);
  for (size_t i = 0; i < d; i++)
    for (size_t j = 0; j < d; j++) p[i + j] += a.c[i] * b.c[j];
  for (size_t k = 2 * d; k-- > d;) {
    mpq_class t = p[k] / f[d];
    if (t == 0) continue;
    for (size_t j = 0; j <= d; j++) p[k - d + j] -= t * f[j];
  }
  NF r(*a.F);
  for (size_t i = 0; i < d; i++) r.c[i] = p[i];
  return r;
}
inline NF operator*(NF a, const mpq_class& q) {
  for (auto& x : a.c) x *= q;
  return a;
}
// The inverse of a non-zero element, from the matrix of multiplication by a.
inline NF inverse(const NF& a) {
  const size_t d = a.c.size();
  std::vector<std::vector<mpq_class>> m(d, std::vector<mpq_class>(d + 1));
  NF p(*a.F, 1), x(*a.F);
  if (d > 1) x.c[1] = 1;
  for (size_t j = 0; j < d; j++) {
    NF col = a * p;
    for (size_t i = 0; i < d; i++) m[i][j] = col.c[i];
    p = p * x;
  }
  m[0][d] = 1;
  for (size_t k = 0; k < d; k++) {
    size_t piv = k;
    while (piv < d && m[piv][k] == 0) piv++;
    if (piv == d) throw std::logic_error("model: inverse of zero");
    std::swap(m[k], m[piv]);
    mpq_class t = 1 / m[k][k];
    for (auto& y : m[k]) y *= t;
    for (size_t i = 0; i < d; i++)
      if (i != k && m[i][k] != 0) {
        mpq_class u = m[i][k];
        for (size_t j = k; j <= d; j++) m[i][j] -= u * m[k][j];
      }
  }
  NF r(*a.F);
  for (size_t i = 0; i < d; i++) r.c[i] = m[i][d];
  return r;
}
inline std::ostream& operator<<(std::ostream& os, const NF& a) {
  os << "(";
  for (size_t i = 0; i < a.c.size(); i++) os << (i ? ", " : "") << a.c[i];
  return os << " in " << a.F->poly << ")";
}
inline uint64_t hashNF(const NF& a) {
  uint64_t h = hstr(a.F->poly);
  for (auto& x : a.c) h = hcomb(h, hashQ(x));
  return h;
}
}  // namespace verif
#endif
