// C18: the workloads of all other monitors and a machine for lifetimes, each of
// them repeated to see whether memory is given back.
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>

#include <exact-real/yap/arb.hpp>
#include <exact-real/yap/arf.hpp>
#include <unordered_set>

#include "elements.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#endif

namespace verif {
namespace {
size_t allocated() {
#ifdef VERIF_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}

// Fill the caches that keep recent objects alive with objects of the same kind.
template <typename R>
void flushModules() {
  for (int i = 0; i < 1024; i++) (void)Module<R>::make({RealNumber::random()});
}
void flush() {
  static const RealPtr x = RealNumber::random(Seed(4711));
  for (int i = 0; i < 1024; i++) (void)(*x * *RealNumber::random());
  flushModules<IntegerRing>();
  flushModules<RationalField>();
  flushModules<NumberField>();
}

// Run this again and again to see whether it needs more and more memory.
void repeatedly(const std::string& what, const std::function<void()>& body) {
  struct Borrow {
    Borrow() { setBorrowed(true); }
    ~Borrow() { setBorrowed(false); }
  };
  size_t runs = 0;
  long total = 0;
  bool leak = true;
  {
    Borrow b;
    auto once = [&]() {
      try {
        body();
      } catch (const Fail&) {
        // not a matter of this property
      } catch (const std::exception&) {
      }
      flush();
      // FLINT keeps the integers it does not need anymore, with whatever size they had.
      _fmpz_cleanup();
      runs++;
      return allocated();
    };
    once();
    const size_t first = once();
    size_t before = first;
    for (int i = 0; i < 3 && leak; i++) {
      size_t now = once();
      leak = now > before;
      before = now;
    }
    // It grew every time.  It is a leak if it goes on like that.
    for (int block = 0; block < 12 && leak; block++) {
      size_t now = before;
      for (int i = 0; i < 4; i++) now = once();
      leak = now > before;
      before = now;
    }
    for (int block = 0; block < 8 && leak; block++) {
      size_t now = before;
      for (int i = 0; i < 12; i++) now = once();
      leak = now > before;
      before = now;
    }
    total = static_cast<long>(before) - static_cast<long>(first);
  }
  tally("workloads repeated");
  tally("repetitions", runs);
  if (leak) fail("leak", "memory in use grew by " + str(total) + " bytes during " + str(runs - 2) + " repetitions of " + what);
}

// ----------------------------------------------------------------- lifetimes
// Kinds of values: how to make, describe, and change them.
struct ArfKind {
  using T = Arf;
  static T make(World&, Rng& rng) {
    switch (rng.below(6)) {
      case 0: return Arf();
      case 1: return mkArf(randDy(rng, 300, 900));
      case 2: return Arf(randInt(rng, 500), rng.range(-100, 100));
      case 3: {
        Dy d(randInt(rng, 200), shl(mpz_class(1), 64 + rng.below(100)));  // exponent on the heap
        return mkArf(rng.chance(1, 2) ? d : neg(d));
      }
      case 4: return Arf(static_cast<double>(rng.range(-1000, 1000)) / 64);
      default: return Arf(rng.range(-5, 5));
    }
  }
  static std::string text(const T& x) { return str(dy(x.arf_t())); }
  static T combine(const T& x, const T& y, Rng& rng) {
    long prec = rng.range(1, 300);
    auto rnd = rng.of({Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL, Arf::Round::NEAR});
    switch (rng.below(6)) {
      case 0: return (x + y)(prec, rnd);
      case 1: return (x - y * x)(prec, rnd);
      case 2: return -x;
      case 3: {
        auto e = x * y;
        auto f = e + x;
        auto g = f;
        (void)std::move(f)(prec, rnd);
        return std::move(g)(prec, rnd);
      }
      case 4: {
        Arf a = x;
        a += y(prec, rnd);
        return a;
      }
      default: return x << static_cast<long>(rng.below(50));
    }
  }
  static void change(T& x, const T& y, Rng& rng) {
    long prec = rng.range(1, 300);
    switch (rng.below(7)) {
      case 0: x += y(prec, Arf::Round::NEAR); break;
      case 1: x -= y(prec, Arf::Round::DOWN); break;
      case 2: x *= y(prec, Arf::Round::UP); break;
      case 3: x <<= rng.range(0, 90); break;
      case 4: x >>= rng.range(0, 90); break;
      case 5: x = (y - x)(prec, Arf::Round::NEAR); break;
      default: x = y;
    }
  }
};
struct ArbKind {
  using T = Arb;
  static T make(World& w, Rng& rng) {
    switch (rng.below(6)) {
      case 0: return Arb();
      case 1: return Arb(ArfKind::make(w, rng));
      case 2: return Arb(randQ(rng, 300), rng.range(1, 400));
      case 3: return Arb(rng.range(-9, 9));
      case 4: {
        Arf a = mkArf(randDy(rng, 300, 900)), b = mkArf(randDy(rng, 300, 900));
        return a < b ? Arb(std::make_pair(a, b)) : Arb(std::make_pair(b, a));
      }
      default: return Arb::zero_pm_one();
    }
  }
  static std::string text(const T& x) { return str(mid(x.arb_t())) + "+-" + str(rad(x.arb_t())); }
  static T combine(const T& x, const T& y, Rng& rng) {
    long prec = rng.range(2, 300);
    switch (rng.below(5)) {
      case 0: return (x + y)(prec);
      case 1: return (x - y * x)(prec);
      case 2: return -x;
      case 3: {
        auto e = x * y;
        auto f = e - x;
        auto g = f;
        (void)std::move(f)(prec);
        return std::move(g)(prec);
      }
      default: {
        auto [a, b] = static_cast<std::pair<Arf, Arf>>(x);
        return Arb(a);
      }
    }
  }
  static void change(T& x, const T& y, Rng& rng) {
    long prec = rng.range(2, 300);
    switch (rng.below(6)) {
      case 0: x += y(prec); break;
      case 1: x -= y(prec); break;
      case 2: x *= y(prec); break;
      case 3: x = (y + x)(prec); break;
      default: x = y;
    }
  }
};
template <typename R>
struct ElementKind {
  using T = Element<R>;
  static T make(World& w, Rng& rng) {
    Elements<R> E(w, rng);
    switch (rng.below(5)) {
      case 0: return Element<R>();
      case 1: return E.module(E.randomBasis(3, 2))->zero();
      default: return E.random(E.randomBasis(4, 2), 200).e;
    }
  }
  static std::string text(const T& x) {
    std::ostringstream os;
    os << x.module().get() << ":";
    for (auto& c : x.coefficients()) os << c << ",";
    return os.str();
  }
  static T combine(const T& x, const T& y, Rng& rng) {
    switch (rng.below(7)) {
      case 0: return x + y;
      case 1: return x - y;
      case 2: return -x;
      case 3: return x.module()->rank() * y.module()->rank() > 12 ? x : x * y;
      case 4: {
        T z = x;
        return z.simplify();
      }
      case 5: return x * mpz_class(rng.range(-3, 3));
      default: {
        T z = std::move(x.module()->zero());
        z += x;
        return z;
      }
    }
  }
  static void change(T& x, const T& y, Rng& rng) {
    switch (rng.below(7)) {
      case 0: x += y; break;
      case 1: x -= y; break;
      case 2: x *= randInt(rng, 100); break;
      case 3: x *= static_cast<int>(rng.range(-9, 9)); break;
      case 4: x.simplify(); break;
      case 5: x = x + y; break;
      default: x = y;
    }
  }
};
struct RealKind {
  using T = RealPtr;
  static T make(World& w, Rng& rng) {
    if (rng.chance(1, 3)) return RealNumber::rational(randQ(rng, 200));
    return w.real(w.randomMono(4));
  }
  static std::string text(const T& x) { return str(x.get()); }
  static T combine(const T& x, const T& y, Rng& rng) {
    auto irrational = [](const T& r) { return !static_cast<std::optional<mpq_class>>(*r); };
    if (irrational(x) && irrational(y) && rng.chance(1, 2)) {
      T r = *x * *y;
      // powers may become huge
      std::ostringstream os;
      if (rng.chance(1, 3)) return *(*r / *x);
      (void)r->arf(rng.range(1, 300));
      return x;
    }
    (void)x->arf(rng.range(1, 400));
    return y;
  }
  static void change(T& x, const T& y, Rng&) { x = y; }
};
template <typename R>
struct ModuleKind {
  using T = std::shared_ptr<const Module<R>>;
  static T make(World& w, Rng& rng) {
    Elements<R> E(w, rng);
    return E.module(E.randomBasis(4, 2));
  }
  static std::string text(const T& x) { return str(x.get()); }
  static T combine(const T& x, const T& y, Rng& rng) { return rng.chance(1, 2) ? Module<R>::span(x, y) : x; }
  static void change(T& x, const T& y, Rng&) { x = Module<R>::span(x, y); }
};

template <typename K>
void lifetimes(World& w, Rng& rng, int steps) {
  using T = typename K::T;
  struct Slot {
    T x;
    std::optional<std::string> text;  // nothing if it has been moved from
  };
  std::vector<Slot> slots;
  auto add = [&](T x) {
    std::string t = K::text(x);
    slots.push_back({std::move(x), t});
  };
  auto any = [&](bool usable) -> Slot* {
    for (int i = 0; i < 20; i++) {
      Slot& s = slots[rng.below(slots.size())];
      if (!usable || s.text) return &s;
    }
    return nullptr;
  };
  add(K::make(w, rng));
  for (int k = 0; k < steps; k++) {
    if (slots.empty() || rng.chance(1, 8)) {
      add(K::make(w, rng));
      continue;
    }
    Slot *a = any(true), *b = any(true), *c = any(false);
    if (!a || !b) {
      add(K::make(w, rng));
      continue;
    }
    switch (rng.below(12)) {
      case 0: {
        T y(a->x);
        add(y);
        tally("copies");
        break;
      }
      case 1: {
        std::string t = *a->text;
        T y(std::move(a->x));
        a->text.reset();
        CHECK(K::text(y) == t, "moved", "moving changed " << t << " to " << K::text(y));
        add(std::move(y));
        tally("moves");
        break;
      }
      case 2:
        c->x = a->x;  // may be itself, or moved from
        c->text = a->text;
        tally("assignments");
        break;
      case 3:
        if (c != a) {
          c->x = std::move(a->x);
          c->text = a->text;
          a->text.reset();
          tally("move assignments");
        }
        break;
      case 4: {
        T& same = a->x;
        a->x = same;
        tally("self assignments");
        break;
      }
      case 5:
        using std::swap;
        swap(a->x, b->x);
        swap(a->text, b->text);
        break;
      case 6: slots.erase(slots.begin() + (c - slots.data())); break;
      case 7:
      case 8: add(K::combine(a->x, b->x, rng)); break;
      case 9:
        // operands may be the same object
        K::change(a->x, b->x, rng);
        a->text = K::text(a->x);
        tally(a == b ? "changes by itself" : "changes");
        break;
      case 10: {
        // reallocation moves or copies everything
        slots.shrink_to_fit();
        std::vector<Slot> other = slots;
        std::reverse(other.begin(), other.end());
        slots = std::move(other);
        break;
      }
      default: {
        // a function that keeps its argument
        auto f = [y = a->x, &rng](const T& z) { return K::combine(y, z, rng); };
        auto g = f;
        add(g(b->x));
      }
    }
    if (slots.size() > 12) slots.resize(6, slots[0]);
    // Nobody else has been changed by that.
    for (auto& s : slots)
      if (s.text) CHECK(K::text(s.x) == *s.text, "changed", "a value changed from " << *s.text << " to " << K::text(s.x) << " without being assigned to");
    tally("steps");
  }
}
void lifetimesOfAnything(Rng& rng) {
  std::unique_ptr<World> w = std::make_unique<World>(rng, static_cast<int>(rng.range(1, 4)));
  int steps = static_cast<int>(rng.range(5, 60));
  switch (rng.below(9)) {
    case 0: return lifetimes<ArfKind>(*w, rng, steps);
    case 1: return lifetimes<ArbKind>(*w, rng, steps);
    case 2: return lifetimes<RealKind>(*w, rng, steps);
    case 3: return lifetimes<ModuleKind<IntegerRing>>(*w, rng, steps);
    case 4: return lifetimes<ModuleKind<RationalField>>(*w, rng, steps);
    case 5: return lifetimes<ModuleKind<NumberField>>(*w, rng, steps);
    case 6: return lifetimes<ElementKind<IntegerRing>>(*w, rng, steps);
    case 7: return lifetimes<ElementKind<RationalField>>(*w, rng, steps);
    default: return lifetimes<ElementKind<NumberField>>(*w, rng, steps);
  }
}

// ----------------------------------------------------------- streams that fail
// A device that has room for some bytes only; some devices report that with exceptions.
struct Narrow : std::streambuf {
  size_t room;
  bool throws;
  std::string text;
  Narrow(size_t room, bool throws) : room(room), throws(throws) {}
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (text.size() >= room) {
      if (throws) throw std::runtime_error("no space left on device");
      return traits_type::eof();
    }
    text += traits_type::to_char_type(c);
    return c;
  }
};
template <typename T>
void printOnNarrow(const T& x, Rng& rng, const char* kind) {
  std::string whole;
  std::streamsize precision = rng.range(0, 60);
  {
    std::ostringstream os;
    os.precision(precision);
    os << x;
    whole = os.str();
  }
  std::vector<size_t> rooms{0, 1, whole.size(), whole.size() - 1, whole.size() / 2, static_cast<size_t>(rng.below(whole.size() + 2))};
  for (size_t room : rooms) {
    Narrow buf(room, rng.chance(1, 3));
    std::ostream os(&buf);
    os.precision(precision);
    bool exceptions = rng.chance(1, 2);
    if (exceptions) os.exceptions(std::ios::badbit | std::ios::failbit);
    bool threw = false;
    try {
      os << x;
    } catch (const std::exception&) {
      threw = true;
    }
    CHECK(!threw || exceptions, "stream", "printing a " << kind << " threw though the stream does not report errors with exceptions");
    if (room >= whole.size()) {
      CHECK(os.good() && buf.text == whole, "stream", "printing a " << kind << " with room for it wrote " << buf.text << " and not " << whole);
      tally("streams with just enough room");
    } else {
      CHECK(!os.good() || threw, "stream", "the stream pretends to have written " << whole << " but there was only room for " << room << " bytes");
      CHECK(whole.compare(0, buf.text.size(), buf.text) == 0, "stream", "printing a " << kind << " wrote " << buf.text << " instead of a part of " << whole);
      tally(exceptions ? "streams that failed with exceptions" : "streams that failed");
    }
  }
}
void failingStreams(Rng& rng) {
  World w(rng, static_cast<int>(rng.range(1, 3)));
  switch (rng.below(9)) {
    case 0: return printOnNarrow(ArfKind::make(w, rng), rng, "Arf");
    case 1:
    case 2: return printOnNarrow(ArbKind::make(w, rng), rng, "Arb");
    case 3: return printOnNarrow(*RealKind::make(w, rng), rng, "RealNumber");
    case 4: return printOnNarrow(*ModuleKind<IntegerRing>::make(w, rng), rng, "Module");
    case 5: return printOnNarrow(*ModuleKind<NumberField>::make(w, rng), rng, "Module");
    case 6: return printOnNarrow(ElementKind<IntegerRing>::make(w, rng), rng, "Element");
    case 7: return printOnNarrow(ElementKind<RationalField>::make(w, rng), rng, "Element");
    default: return printOnNarrow(ElementKind<NumberField>::make(w, rng), rng, "Element");
  }
}

// ------------------------------------------------------------ bounded caches
// A number does not remember everything that has ever been asked from it.
void boundedCaches(Rng& rng) {
  World w(rng, 2, true);
  RealPtr x;
  switch (rng.below(4)) {
    case 0: x = RealNumber::rational(mpq_class(rng.range(1, 9), 11)); break;
    case 1: x = w.real(w.randomMono(2)); break;
    case 2: x = RealNumber::random(); break;
    default: x = w.vars[0]->x;
  }
  const long from = rng.range(70, 500), queries = rng.range(4000, 6000);
  (void)static_cast<double>(*x);
  (void)x->arf(64);
  size_t returned = 0;
  const size_t before = allocated();
  for (long i = 0; i < queries; i++) returned += static_cast<size_t>(arf_allocated_bytes(x->arf(from + i).arf_t()));
  const size_t after = allocated();
  CHECK(after < before || after - before <= returned / 2 + 200000, "unbounded", str(queries) + " approximations of " << *x << ", " << returned << " bytes, made it keep " << after - before << " bytes");
  tally("numbers asked for thousands of approximations");
}

// ---------------------------------------------------------- static destruction
// Constructed before and destroyed after everything in the library.
struct Globals {
  RealPtr x, y;
  std::shared_ptr<const Module<IntegerRing>> Z;
  std::shared_ptr<const Module<RationalField>> Q;
  std::shared_ptr<const Module<NumberField>> K;
  std::vector<Element<IntegerRing>> zs;
  std::vector<Element<RationalField>> qs;
  std::vector<Element<NumberField>> ks;
  std::vector<Arf> fs;
  std::vector<Arb> bs;
} early;
RealPtr initialized = RealNumber::random(Seed(99));

void fill(Globals& g, World& w, Rng& rng) {
  Elements<IntegerRing> EZ(w, rng);
  Elements<RationalField> EQ(w, rng);
  Elements<NumberField> EK(w, rng);
  for (int i = 0; i < 6; i++) switch (rng.below(10)) {
      case 0: g.x = w.real(w.randomMono(3)); break;
      case 1: g.y = w.real(w.randomMono(1)); break;
      case 2: g.Z = EZ.module(EZ.randomBasis(3, 2)); break;
      case 3: g.Q = EQ.module(EQ.randomBasis(3, 2)); break;
      case 4: g.K = EK.module(EK.randomBasis(3, 2)); break;
      case 5: g.zs.push_back(EZ.random(EZ.randomBasis(3, 2)).e); break;
      case 6: g.qs.push_back(EQ.random(EQ.randomBasis(3, 2)).e); break;
      case 7: g.ks.push_back(EK.random(EK.randomBasis(3, 2)).e); break;
      case 8: g.fs.push_back(ArfKind::make(w, rng)); break;
      default: g.bs.push_back(ArbKind::make(w, rng));
    }
}
void staticDestruction(Rng& rng) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) throw std::logic_error("harness: fork");
  if (pid == 0) {
    static Globals late;
    static thread_local Globals mine;
    {
      World w(rng, static_cast<int>(rng.range(1, 3)));
      Globals* order[] = {&early, &late, &mine};
      for (int i = 0; i < 3; i++) fill(*order[rng.below(3)], w, rng);
      initialized = w.real(w.randomMono(2));
    }
    exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "static-destruction", "a process that kept objects in static storage ended with status " << status);
  tally("processes with objects in static storage");
}

PROPERTY(C18) {
  static const std::vector<std::string> names = [] {
    std::vector<std::string> r;
    for (auto* n : {"C01", "C02", "C03", "C03b", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C22", "C23", "C24"})
      if (findCase(n)) r.push_back(n);
    return r;
  }();
  uint64_t sub = rng.next();
  int kind = static_cast<int>(rng.below(22));
  if (kind == 0 && rng.chance(1, 3)) {
    at("many approximations");
    Rng once(sub);
    boundedCaches(once);
  } else if (kind == 0) {
    at("static destruction");
    staticDestruction(rng);
  } else if (kind < 8) {
    Rng once(sub);
    lifetimesOfAnything(once);
    repeatedly("copies, moves and assignments", [=] {
      Rng r(sub);
      lifetimesOfAnything(r);
    });
    tally("lifetimes");
  } else if (kind < 10) {
    Rng once(sub);
    failingStreams(once);
    repeatedly("printing to streams that fail", [=] {
      Rng r(sub);
      failingStreams(r);
    });
  } else {
    const std::string& name = names[rng.below(names.size())];
    CaseFn f = findCase(name);
    repeatedly("the workload of " + name, [=] {
      Rng r(sub);
      f(r, 7);
    });
    tally("workload of " + name);
  }
  cover(sub);
  if (index < 2) sample("workload " + str(kind));
}
}  // namespace
}  // namespace verif
