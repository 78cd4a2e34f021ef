// Exact reference arithmetic, written against GMP only: dyadic numbers with
// correctly rounded operations, and rational intervals.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP

#include <flint/flint.h>
#include <flint/arf.h>
#include <flint/arb.h>
#include <gmpxx.h>

#include <cassert>
#include <cmath>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>

#include "common.hpp"

namespace verif {

enum class Rnd { NEAR, DOWN, UP, FLOOR, CEIL };
constexpr long EXACT = ARF_PREC_EXACT;

inline mpz_class shl(const mpz_class& x, unsigned long n) {
  mpz_class r;
  mpz_mul_2exp(r.get_mpz_t(), x.get_mpz_t(), n);
  return r;
}
inline mpq_class absq(const mpq_class& q) { return q < 0 ? mpq_class(-q) : q; }
inline size_t bits(const mpz_class& x) { return x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2); }

// A dyadic number m·2^e with m odd or zero, or ±∞ or NaN.
struct Dy {
  enum Kind { FIN, PINF, NINF, NAN_ } k = FIN;
  mpz_class m = 0, e = 0;

  Dy() {}
  Dy(const mpz_class& m_, const mpz_class& e_) : m(m_), e(e_) { norm(); }
  explicit Dy(long v) : m(v) { norm(); }
  static Dy special(Kind k) {
    Dy r;
    r.k = k;
    return r;
  }
  static Dy ofDouble(double d) {
    if (std::isnan(d)) return special(NAN_);
    if (std::isinf(d)) return special(d > 0 ? PINF : NINF);
    int ex;
    double f = std::frexp(d, &ex);
    mpz_class m;
    mpz_set_d(m.get_mpz_t(), std::ldexp(f, 53));
    return Dy(m, ex - 53);
  }
  bool fin() const { return k == FIN; }
  bool zero() const { return k == FIN && m == 0; }
  int sgn() const { return k == FIN ? ::sgn(m) : k == PINF ? 1 : k == NINF ? -1 : 0; }
  void norm() {
    if (k != FIN) {
      m = 0;
      e = 0;
      return;
    }
    if (m == 0) {
      e = 0;
      return;
    }
    auto z = mpz_scan1(m.get_mpz_t(), 0);
    mpz_tdiv_q_2exp(m.get_mpz_t(), m.get_mpz_t(), z);
    e += z;
  }
  bool operator==(const Dy& o) const { return k == o.k && m == o.m && e == o.e; }
  bool operator!=(const Dy& o) const { return !(*this == o); }
  // exponent of the leading bit: 2^top <= |x| < 2^(top+1)
  mpz_class top() const { return e + static_cast<unsigned long>(bits(m)) - 1; }
  mpq_class q() const {
    assert(fin() && abs(e) < 2000000);
    mpq_class r(m);
    if (e >= 0)
      mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e.get_ui());
    else
      mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), mpz_class(-e).get_ui());
    return r;
  }
};

inline std::ostream& operator<<(std::ostream& os, const Dy& d) {
  switch (d.k) {
    case Dy::PINF: return os << "+inf";
    case Dy::NINF: return os << "-inf";
    case Dy::NAN_: return os << "nan";
    default: return os << d.m << "*2^" << d.e;
  }
}

inline Dy neg(const Dy& a) {
  Dy r = a;
  if (r.k == Dy::FIN) r.m = -r.m;
  else if (r.k == Dy::PINF) r.k = Dy::NINF;
  else if (r.k == Dy::NINF) r.k = Dy::PINF;
  return r;
}

// Round m·2^e (with an additional infinitesimal of sign `sticky`·sign(m)
// below, away from zero) to prec bits.
inline Dy roundTo(const mpz_class& m, const mpz_class& e, long prec, Rnd rnd) {
  Dy d(m, e);
  if (d.m == 0 || prec >= EXACT) return d;
  long n = static_cast<long>(bits(d.m));
  if (n <= prec) return d;
  long cut = n - prec;
  mpz_class a = abs(d.m), q, r;
  int s = ::sgn(d.m);
  mpz_tdiv_q_2exp(q.get_mpz_t(), a.get_mpz_t(), cut);
  mpz_tdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), cut);
  bool inc = false;
  if (r != 0) {
    switch (rnd) {
      case Rnd::DOWN: inc = false; break;
      case Rnd::UP: inc = true; break;
      case Rnd::FLOOR: inc = s < 0; break;
      case Rnd::CEIL: inc = s > 0; break;
      case Rnd::NEAR: {
        mpz_class half = shl(mpz_class(1), cut - 1);
        int c = cmp(r, half);
        inc = c > 0 || (c == 0 && mpz_odd_p(q.get_mpz_t()));
      }
    }
  }
  if (inc) q += 1;
  return Dy(s < 0 ? mpz_class(-q) : q, d.e + cut);
}

inline Dy add(const Dy& a, const Dy& b, long prec, Rnd rnd) {
  if (a.k == Dy::NAN_ || b.k == Dy::NAN_) return Dy::special(Dy::NAN_);
  if (!a.fin() || !b.fin()) {
    if (!a.fin() && !b.fin()) return a.k == b.k ? a : Dy::special(Dy::NAN_);
    return a.fin() ? b : a;
  }
  if (a.m == 0) return roundTo(b.m, b.e, prec, rnd);
  if (b.m == 0) return roundTo(a.m, a.e, prec, rnd);
  const Dy &hi = a.e >= b.e ? a : b, &lo = a.e >= b.e ? b : a;
  mpz_class diff = hi.e - lo.e;
  if (diff > 200000) {
    if (prec >= EXACT) throw std::logic_error("model: exact sum with extreme exponents");
    // lo lies below the lowest bit of hi unless lo itself has many bits.
    if (hi.e > lo.top() + prec + 10) {
      // Replace lo by a tiny number of the same sign.
      mpz_class m = shl(hi.m, prec + 10) + lo.sgn();
      return roundTo(m, hi.e - (prec + 10), prec, rnd);
    }
    if (diff > 5000000) throw std::logic_error("model: sum too large");
  }
  mpz_class m = shl(hi.m, diff.get_ui()) + lo.m;
  return roundTo(m, lo.e, prec, rnd);
}
inline Dy sub(const Dy& a, const Dy& b, long prec, Rnd rnd) { return add(a, neg(b), prec, rnd); }
inline Dy mul(const Dy& a, const Dy& b, long prec, Rnd rnd) {
  if (a.k == Dy::NAN_ || b.k == Dy::NAN_) return Dy::special(Dy::NAN_);
  if (!a.fin() || !b.fin()) {
    int s = a.sgn() * b.sgn();
    return Dy::special(s == 0 ? Dy::NAN_ : s > 0 ? Dy::PINF : Dy::NINF);
  }
  return roundTo(a.m * b.m, a.e + b.e, prec, rnd);
}
// Only for finite a and finite non-zero b.
inline Dy div(const Dy& a, const Dy& b, long prec, Rnd rnd) {
  if (!a.fin() || !b.fin() || b.zero()) return Dy::special(Dy::NAN_);
  if (a.zero()) return a;
  if (prec >= EXACT) throw std::logic_error("model: exact division");
  long shift = prec + 4 + static_cast<long>(bits(b.m));
  mpz_class n = shl(abs(a.m), shift), d = abs(b.m), q, r;
  mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
  q = shl(q, 1) + (r != 0 ? 1 : 0);
  if (a.sgn() * b.sgn() < 0) q = -q;
  return roundTo(q, a.e - b.e - shift - 1, prec, rnd);
}
// Exact comparison of numbers that are not NaN.
inline int cmpDy(const Dy& a, const Dy& b) {
  if (a.k == Dy::PINF) return b.k == Dy::PINF ? 0 : 1;
  if (a.k == Dy::NINF) return b.k == Dy::NINF ? 0 : -1;
  if (!b.fin()) return b.k == Dy::PINF ? -1 : 1;
  int s = a.sgn(), t = b.sgn();
  if (s != t) return s < t ? -1 : 1;
  if (s == 0) return 0;
  int c = ::cmp(a.top(), b.top());
  if (c) return c * s;
  // same magnitude: the exponents differ at most by the number of bits
  const mpz_class d = a.e - b.e;
  if (d >= 0) return ::cmp(shl(a.m, d.get_ui()), b.m);
  return ::cmp(a.m, shl(b.m, mpz_class(-d).get_ui()));
}
// floor(x) of a finite number that is not too large
inline mpz_class floorDy(const Dy& a) {
  if (a.e >= 0) return shl(a.m, a.e.get_ui());
  if (a.e < -10000000) return a.sgn() < 0 ? -1 : 0;
  mpz_class r;
  mpz_fdiv_q_2exp(r.get_mpz_t(), a.m.get_mpz_t(), mpz_class(-a.e).get_ui());
  return r;
}
inline mpz_class ceilDy(const Dy& a) { return -floorDy(neg(a)); }

// The double nearest to a rational/dyadic number, ties to even.
inline double nearest(const Dy& d) {
  if (d.k == Dy::PINF) return HUGE_VAL;
  if (d.k == Dy::NINF) return -HUGE_VAL;
  if (d.k == Dy::NAN_) return NAN;
  if (d.zero()) return 0.;
  mpz_class top = d.top();
  if (top > 1100) return d.sgn() > 0 ? HUGE_VAL : -HUGE_VAL;
  if (top < -1200) return d.sgn() > 0 ? 0. : -0.;
  long p = 53;
  if (top < -1022) p = 53 - (-1022 - top.get_si());
  if (p < 1) {
    // |d| < 2^-1074: at most half of the smallest double rounds to zero.
    if (p == 0) {
      // 2^-1075 <= |d| < 2^-1074
      Dy half(1, -1075);
      Dy a = d.sgn() < 0 ? neg(d) : d;
      double r = cmpDy(a, half) > 0 ? std::ldexp(1., -1074) : 0.;
      return d.sgn() < 0 ? -r : r;
    }
    return d.sgn() > 0 ? 0. : -0.;
  }
  Dy r = roundTo(d.m, d.e, p, Rnd::NEAR);
  if (r.top() > 1023) return d.sgn() > 0 ? HUGE_VAL : -HUGE_VAL;
  mpz_class m = r.m;
  return std::ldexp(m.get_d(), static_cast<int>(r.e.get_si()));
}
// q rounded to a dyadic with a sticky bit far below double precision; rounds
// to the same double as q under ties-to-even.
inline Dy stickyDy(const mpq_class& q, long prec = 1300) {
  Dy n(q.get_num(), 0), d(q.get_den(), 0);
  if (n.zero()) return n;
  long shift = prec + 4 + static_cast<long>(bits(q.get_den()));
  mpz_class num = shl(abs(q.get_num()), shift), quo, rem;
  mpz_tdiv_qr(quo.get_mpz_t(), rem.get_mpz_t(), num.get_mpz_t(), q.get_den_mpz_t());
  quo = shl(quo, 1) + (rem != 0 ? 1 : 0);
  if (q < 0) quo = -quo;
  return Dy(quo, -shift - 1);
}
inline double nearest(const mpq_class& q) { return nearest(stickyDy(q)); }
inline mpz_class floorQ(const mpq_class& q) {
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
inline mpz_class ceilQ(const mpq_class& q) {
  mpz_class r;
  mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
inline mpq_class pow2(long e) {
  mpq_class r(1);
  if (e >= 0)
    mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e);
  else
    mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e);
  return r;
}

// A closed interval with rational endpoints.
struct IV {
  mpq_class lo, hi;
  IV() {}
  IV(const mpq_class& x) : lo(x), hi(x) {}
  IV(const mpq_class& a, const mpq_class& b) : lo(a), hi(b) {}
  bool contains(const mpq_class& x) const { return lo <= x && x <= hi; }
  bool exact() const { return lo == hi; }
};
inline std::ostream& operator<<(std::ostream& os, const IV& i) {
  return os << "[" << i.lo.get_d() << "," << i.hi.get_d() << "]";
}
inline IV operator+(const IV& a, const IV& b) { return {mpq_class(a.lo + b.lo), mpq_class(a.hi + b.hi)}; }
inline IV operator-(const IV& a) { return {mpq_class(-a.hi), mpq_class(-a.lo)}; }
inline IV operator-(const IV& a, const IV& b) { return {mpq_class(a.lo - b.hi), mpq_class(a.hi - b.lo)}; }
inline IV operator*(const IV& a, const IV& b) {
  if (a.exact() && b.exact()) return IV(mpq_class(a.lo * b.lo));
  mpq_class p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  IV r(p[0]);
  for (auto& x : p) {
    if (x < r.lo) r.lo = x;
    if (x > r.hi) r.hi = x;
  }
  return r;
}
inline IV inv(const IV& a) {
  if (a.lo <= 0 && a.hi >= 0) throw std::logic_error("model: interval contains zero");
  return {mpq_class(1 / a.hi), mpq_class(1 / a.lo)};
}
inline bool disjoint(const IV& a, const IV& b) { return a.hi < b.lo || b.hi < a.lo; }
inline IV meet(const IV& a, const IV& b) { return {a.lo > b.lo ? a.lo : b.lo, a.hi < b.hi ? a.hi : b.hi}; }
// Widen to dyadic endpoints with about `prec` bits to keep numbers small.
inline IV outward(const IV& a, long prec) {
  auto rd = [&](const mpq_class& q, bool up) {
    if (q == 0) return q;
    mpz_class n = q.get_num(), d = q.get_den();
    long sh = prec - (static_cast<long>(bits(n)) - static_cast<long>(bits(d)));
    mpz_class m;
    if (sh >= 0) n = shl(n, sh);
    else d = shl(d, -sh);
    if (up) mpz_cdiv_q(m.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
    else mpz_fdiv_q(m.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
    return mpq_class(mpq_class(m) * pow2(-sh));
  };
  return {rd(a.lo, false), rd(a.hi, true)};
}

// ---------------------------------------------------------------- FLINT glue
inline Dy dy(const ::arf_t x) {
  if (arf_is_nan(x)) return Dy::special(Dy::NAN_);
  if (arf_is_pos_inf(x)) return Dy::special(Dy::PINF);
  if (arf_is_neg_inf(x)) return Dy::special(Dy::NINF);
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  arf_get_fmpz_2exp(m, e, x);
  Dy r;
  fmpz_get_mpz(r.m.get_mpz_t(), m);
  fmpz_get_mpz(r.e.get_mpz_t(), e);
  fmpz_clear(m);
  fmpz_clear(e);
  r.norm();
  return r;
}
inline void setArf(::arf_t x, const Dy& d) {
  switch (d.k) {
    case Dy::PINF: arf_pos_inf(x); return;
    case Dy::NINF: arf_neg_inf(x); return;
    case Dy::NAN_: arf_nan(x); return;
    default: break;
  }
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  fmpz_set_mpz(m, d.m.get_mpz_t());
  fmpz_set_mpz(e, d.e.get_mpz_t());
  arf_set_fmpz_2exp(x, m, e);
  fmpz_clear(m);
  fmpz_clear(e);
}
// An arf must be kept normalized: no trailing zero limbs, and well-formed.
inline bool wellformed(const ::arf_t x) {
  if (arf_is_special(x)) return ARF_SIZE(x) == 0;
  mp_srcptr p;
  mp_size_t n;
  ARF_GET_MPN_READONLY(p, n, x);
  return n > 0 && p[0] != 0 && (p[n - 1] >> (FLINT_BITS - 1)) == 1;
}
inline Dy mid(const ::arb_t x) { return dy(arb_midref(x)); }
inline Dy rad(const ::arb_t x) {
  ::arf_t r;
  arf_init(r);
  arf_set_mag(r, arb_radref(x));
  Dy d = dy(r);
  arf_clear(r);
  return d;
}
inline bool smallExp(const Dy& d) { return d.fin() && abs(d.e) < 600000 && abs(d.top()) < 600000; }
// The ball as an interval of rationals; only if finite with moderate exponents.
inline std::optional<IV> iv(const ::arb_t x) {
  Dy m = mid(x), r = rad(x);
  if (!smallExp(m) && !m.zero()) return std::nullopt;
  if (!smallExp(r) && !r.zero()) return std::nullopt;
  mpq_class a = m.q(), b = r.q();
  return IV(mpq_class(a - b), mpq_class(a + b));
}

// ---------------------------------------------------------------- generators
inline mpz_class randBits(Rng& r, unsigned long n) {
  mpz_class v = 0;
  for (unsigned long i = 0; i < n; i += 64) {
    v = shl(v, 64);
    uint64_t w = r.next();
    mpz_class l;
    mpz_import(l.get_mpz_t(), 1, -1, sizeof w, 0, 0, &w);
    v += l;
  }
  mpz_tdiv_r_2exp(v.get_mpz_t(), v.get_mpz_t(), n);
  return v;
}
// Integers biased to the boundaries of the representations in use (32 and 64
// bit words, small fmpz of 62 bits, double mantissas, multiple limbs.)
inline mpz_class randInt(Rng& r, unsigned long maxbits = 200) {
  mpz_class v;
  switch (r.below(8)) {
    case 0: v = r.range(-3, 3); return v;
    case 1: v = r.range(-1000, 1000); return v;
    case 2:
    case 3: {
      unsigned long n = r.of<unsigned long>({7, 8, 15, 16, 30, 31, 32, 52, 53, 54, 61, 62, 63, 64, 65, 127, 128, 129});
      if (n > maxbits) n = maxbits;
      v = shl(mpz_class(1), n) + r.range(-2, 2);
      break;
    }
    case 4: {
      // few bits set
      v = 0;
      for (int i = 0; i < 3; i++) v += shl(mpz_class(1), r.below(maxbits));
      break;
    }
    case 5: {
      // a run of ones
      unsigned long n = 1 + r.below(maxbits);
      v = shl(mpz_class(shl(mpz_class(1), n) - 1), r.below(maxbits - n + 1));
      break;
    }
    default: v = randBits(r, 1 + r.below(maxbits));
  }
  return r.chance(1, 2) ? v : mpz_class(-v);
}
inline mpq_class randQ(Rng& r, unsigned long maxbits = 100) {
  mpz_class n = randInt(r, maxbits), d;
  switch (r.below(4)) {
    case 0: d = 1; break;
    case 1: d = shl(mpz_class(1), r.below(maxbits)); break;
    case 2: d = r.range(1, 60); break;
    default: d = abs(randInt(r, maxbits));
  }
  if (d == 0) d = 3;
  mpq_class q(n, d);
  q.canonicalize();
  return q;
}
// A finite dyadic number; exponents stay below `maxe` in absolute value.
inline Dy randDy(Rng& r, long maxe = 200, unsigned long maxbits = 200) {
  if (r.chance(1, 20)) return Dy();
  mpz_class m = randInt(r, maxbits);
  return Dy(m, r.chance(1, 3) ? 0 : r.range(-maxe, maxe));
}
inline uint64_t hashDy(const Dy& d) { return hstr(d.m.get_str(62) + "p" + d.e.get_str(62) + char('0' + d.k)); }
inline uint64_t hashQ(const mpq_class& q) { return hstr(q.get_str(62)); }

}  // namespace verif

#endif
