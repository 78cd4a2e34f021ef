// C20: numbers, modules and elements used from several threads.
//
// Threads only write to logs of their own; all that was logged is checked once
// they have been joined.  Nothing in here orders the threads more than what the
// library does itself: tickets are relaxed atomics, which neither TSan nor the
// processor take for synchronization of anything else.
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include <exact-real/cereal.hpp>
#include <fstream>
#include <mutex>
#include <thread>

#include "elements.hpp"

namespace verif {
namespace {
std::atomic<uint64_t> clock_{1};
uint64_t ticket() { return clock_.fetch_add(1, std::memory_order_relaxed); }

// ------------------------------------------------------------ injected delays
thread_local uint64_t jitter = 0;  // 0 outside of the threads under test
thread_local unsigned strength = 0;
thread_local uint64_t injected = 0;
inline void pauseHere() {
  if (!jitter) return;
  jitter ^= jitter << 13;
  jitter ^= jitter >> 7;
  jitter ^= jitter << 17;
  if (jitter % 1024 >= strength) return;
  injected++;
  switch ((jitter >> 20) % 4) {
    case 0: {
      struct timespec t = {0, static_cast<long>((jitter >> 24) % 60000)};
      uint64_t save = jitter;
      nanosleep(&t, nullptr);
      jitter = save;
      break;
    }
    case 1: sched_yield(); break;
    default:
      for (volatile int i = static_cast<int>((jitter >> 24) % 3000); i > 0; i = i - 1) {
      }
  }
}
}  // namespace
}  // namespace verif

// The library locks through these; see "ldflags" in checks.py.
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  verif::pauseHere();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  verif::pauseHere();
  return r;
}
}
// Allocations are where the library is between two steps of something.
extern "C" {
void* __real__Znwm(std::size_t);
void __real__ZdlPvm(void*, std::size_t);
void* __wrap__Znwm(std::size_t n);
void __wrap__ZdlPvm(void* p, std::size_t n);
void __real__ZdlPv(void*);
void __wrap__ZdlPv(void* p);
void __wrap__ZdlPv(void* p) {
  verif::pauseHere();
  __real__ZdlPv(p);
}
void* __wrap__Znwm(std::size_t n) {
  verif::pauseHere();
  return __real__Znwm(n);
}
void __wrap__ZdlPvm(void* p, std::size_t n) {
  verif::pauseHere();
  __real__ZdlPvm(p, n);
}
}

namespace verif {
namespace {

struct Held {  // an object was referred to between two tickets
  std::string key;
  const void* ptr;
  uint64_t from, to;
};
struct Approximation {
  Mono m;
  long prec;
  Dy value;
};
struct Compared {
  Mono a, b;
  bool less;
};
template <typename R>
struct Measured {
  Poly<Co<R>> p;
  std::optional<IV> ball;
  std::optional<mpz_class> floor;
  std::optional<double> real;
  std::optional<mpz_class> ceil;
};

std::string keyOf(const Mono& m) {
  std::string r;
  for (int e : m) r += str(e) + ".";
  return r;
}

struct Shared;

struct Worker {
  Shared& S;
  size_t id;
  Rng rng;
  struct Slot {
    Mono m;
    RealPtr x;
    size_t held;
  };
  std::vector<Slot> slots;
  std::vector<Held> held;
  std::vector<Approximation> approximations;
  std::vector<Compared> compared;
  std::vector<std::pair<uint64_t, int>> steps;
  std::vector<std::string> failures;
  std::vector<RealPtr> fresh;
  uint64_t delays = 0, counts[16] = {};
  template <typename R>
  struct Over {
    std::vector<Elem<R>> elems;
    std::vector<std::shared_ptr<const Module<R>>> modules;
    std::vector<size_t> moduleHeld;
    std::vector<Measured<R>> measured;
  };
  Over<IntegerRing> Z;
  Over<RationalField> Q;
  template <typename R>
  Over<R>& over() {
    if constexpr (std::is_same_v<R, IntegerRing>) return Z;
    else return Q;
  }
  Worker(Shared& S, size_t id, uint64_t seed) : S(S), id(id), rng(seed) {}
  void failed(const std::string& s) {
    if (failures.size() < 5) failures.push_back(s);
  }
  size_t hold(const std::string& key, const void* p) {
    held.push_back({key, p, ticket(), ~0ull});
    return held.size() - 1;
  }
  void release(size_t h) { held[h].to = ticket(); }
  void put(const Mono& m, RealPtr x) {
    size_t h = hold("r" + keyOf(m), x.get());
    if (slots.size() >= 8) drop(rng.below(slots.size()));
    slots.push_back({m, std::move(x), h});
  }
  void drop(size_t i) {
    release(slots[i].held);
    slots[i].x.reset();
    slots.erase(slots.begin() + static_cast<long>(i));
  }
  void step();
  template <typename R>
  void elementStep();
  template <typename R>
  std::shared_ptr<const Module<R>> moduleFromSlots(std::vector<Mono>& basis, std::map<const RealNumber*, Mono>& names);
  void run(int nsteps);
};

struct Shared {
  World& w;
  std::atomic<size_t> ready{0};
  size_t threads;
  std::mutex mailbox;
  std::vector<Worker::Slot> mail;
  // Used by all threads without any protection: they are constant.
  std::vector<Elem<IntegerRing>> constZ;
  std::vector<Elem<RationalField>> constQ;
  template <typename R>
  const std::vector<Elem<R>>& constants() const {
    if constexpr (std::is_same_v<R, IntegerRing>) return constZ;
    else return constQ;
  }
  std::vector<RealPtr> constReals;
  std::vector<Mono> constMonos;
  unsigned strength = 0;
  std::atomic<bool> go{false};
  std::atomic<size_t> done{0};
  explicit Shared(World& w) : w(w), threads(0) {}
};

template <typename R>
std::shared_ptr<const Module<R>> Worker::moduleFromSlots(std::vector<Mono>& basis, std::map<const RealNumber*, Mono>& names) {
  typename Module<R>::Basis b;
  std::set<Mono> have;
  auto add = [&](const Mono& m, const RealPtr& x) {
    if (!have.insert(m).second) return;
    b.push_back(x);
    names[x.get()] = m;
  };
  if (rng.chance(1, 2)) add(S.w.one(), RealNumber::rational(1));
  for (auto& s : slots)
    if (rng.chance(1, 2)) add(s.m, s.x);
  for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[rng.below(i)]);
  basis.assign(have.begin(), have.end());
  auto M = Module<R>::make(b);
  return M;
}

template <typename R>
void Worker::elementStep() {
  using C = Co<R>;
  auto& o = over<R>();
  auto keep = [&](Elem<R> x) {
    if (deg(x.p.zero() ? S.w.one() : x.p.t.rbegin()->first) > 8) return;
    if (o.elems.size() >= 6) o.elems.erase(o.elems.begin() + static_cast<long>(rng.below(o.elems.size())));
    o.elems.push_back(std::move(x));
  };
  auto any = [&]() -> const Elem<R>& {
    auto& c = S.constants<R>();
    if (o.elems.empty() || rng.chance(1, 4)) return c[rng.below(c.size())];
    return o.elems[rng.below(o.elems.size())];
  };
  switch (rng.below(9)) {
    case 0: {
      std::vector<Mono> basis;
      std::map<const RealNumber*, Mono> names;
      auto M = moduleFromSlots<R>(basis, names);
      std::string key = C::name;
      for (auto& m : basis) key += keyOf(m) + ";";
      if (o.modules.size() >= 3) {
        release(o.moduleHeld.front());
        o.moduleHeld.erase(o.moduleHeld.begin());
        o.modules.erase(o.modules.begin());
      }
      o.moduleHeld.push_back(hold(key, M.get()));
      o.modules.push_back(M);
      Poly<C> p;
      std::vector<typename C::T> c;
      for (auto& g : M->basis()) {
        auto it = names.find(g.get());
        if (it == names.end()) return failed("a module has a generator it was not created with");
        c.push_back(C::random(nullptr, rng, 40));
        p.add(it->second, c.back());
      }
      keep({Element<R>(M, c), p, basis});
      break;
    }
    case 1:
    case 2: {
      const Elem<R> x = any(), y = any();
      Elem<R> r;
      r.basis = unite(x.basis, y.basis);
      if (rng.chance(1, 2)) {
        r.e = x.e + y.e;
        r.p = x.p + y.p;
      } else {
        r.e = x.e - y.e;
        r.p = x.p - y.p;
      }
      keep(std::move(r));
      break;
    }
    case 3: {
      const Elem<R>&x = any(), &y = any();
      if (x.p.t.size() * y.p.t.size() > 16) break;
      if (x.p.zero() || y.p.zero()) break;
      Elem<R> r;
      r.e = x.e * y.e;
      r.p = x.p * y.p;
      r.basis = products(x.basis, y.basis);
      keep(std::move(r));
      break;
    }
    case 4: {
      const Elem<R>&x = any(), &y = any();
      bool eq = x.e == y.e;
      if (eq != (x.p == y.p)) failed("== of two elements is wrong");
      if (x.e.module() == y.e.module() && eq && std::hash<Element<R>>()(x.e) != std::hash<Element<R>>()(y.e)) failed("hashes of equal elements are different");
      break;
    }
    case 5: {
      const Elem<R>& x = any();
      long prec = rng.range(10, 200);
      Arb a = x.e.arb(prec);
      auto i = iv(a.arb_t());
      if (i) o.measured.push_back({x.p, i, {}, {}, {}});
      break;
    }
    case 6: {
      const Elem<R>& x = any();
      Measured<R> m{x.p, {}, {}, {}, {}};
      switch (rng.below(3)) {
        case 0: m.floor = x.e.floor(); break;
        case 1: m.ceil = x.e.ceil(); break;
        default: m.real = static_cast<double>(x.e);
      }
      o.measured.push_back(m);
      break;
    }
    case 7: {
      const Elem<R>& x = any();
      std::ostringstream os;
      os << x.e;
      auto c = x.e.coefficients();
      auto M = x.e.module();
      if (c.size() != M->basis().size()) failed("number of coefficients");
      break;
    }
    default: {
      const Elem<R>& x = any();
      // Simplification and promotion create modules.
      Elem<R> r;
      r.p = x.p;
      r.e = x.e;
      r.e.simplify();
      for (auto& [m, c] : r.p.t) r.basis.push_back(m);
      keep(std::move(r));
    }
  }
}

void Worker::step() {
  auto& w = S.w;
  int kind = static_cast<int>(rng.below(16));
  steps.push_back({ticket(), kind});
  counts[kind]++;
  if (slots.empty()) kind = 0;
  switch (kind) {
    case 0:
    case 1: {
      size_t v = rng.below(w.vars.size());
      put(w.var(v), w.vars[v]->remake());
      break;
    }
    case 2:
    case 3:
    case 4: {
      const bool constant = rng.chance(1, 4);
      size_t c = rng.below(S.constReals.size());
      const Slot& a = slots[rng.below(slots.size())];
      const Slot& b = slots[rng.below(slots.size())];
      Mono m = a.m * (constant ? S.constMonos[c] : b.m);
      if (deg(m) > 7) break;
      RealPtr x = *a.x * (constant ? *S.constReals[c] : *b.x);
      put(m, x);
      break;
    }
    case 5: {
      const Slot& a = slots[rng.below(slots.size())];
      const Slot& b = slots[rng.below(slots.size())];
      auto q = *a.x / *b.x;
      Mono m = a.m;
      bool exact = true;
      for (size_t i = 0; i < m.size(); i++)
        if ((m[i] -= b.m[i]) < 0) exact = false;
      if (exact != q.has_value()) return failed("division of " + keyOf(a.m) + " by " + keyOf(b.m));
      if (q && deg(m)) put(m, *q);
      else if (q && !(**q == mpq_class(1))) failed("quotient is not 1");
      break;
    }
    case 6:
    case 7:
    case 8: {
      const bool constant = rng.chance(1, 2);
      size_t c = rng.below(S.constReals.size());
      const Slot& a = slots[rng.below(slots.size())];
      const RealNumber& x = constant ? *S.constReals[c] : *a.x;
      long prec = rng.chance(1, 3) ? 54 : rng.chance(1, 3) ? 64 : rng.range(1, 150);
      approximations.push_back({constant ? S.constMonos[c] : a.m, prec, dy(x.arf(prec).arf_t())});
      break;
    }
    case 9: {
      const Slot& a = slots[rng.below(slots.size())];
      const Slot& b = slots[rng.below(slots.size())];
      if ((a.x == b.x) != (a.m == b.m) || (*a.x == *b.x) != (a.m == b.m)) return failed("identity of " + keyOf(a.m) + " and " + keyOf(b.m));
      compared.push_back({a.m, b.m, *a.x < *b.x});
      break;
    }
    case 10: {
      drop(rng.below(slots.size()));
      break;
    }
    case 11: {
      // random() must never repeat
      fresh.push_back(RealNumber::random());
      if (rng.chance(1, 2)) (void)(*fresh.back() * *slots[rng.below(slots.size())].x);
      break;
    }
    case 12: {
      if (rng.chance(1, 2)) {
        std::vector<Slot> got;
        {
          std::lock_guard<std::mutex> lock(S.mailbox);
          got.swap(S.mail);
        }
        for (auto& s : got) put(s.m, std::move(s.x));
      } else {
        const Slot& a = slots[rng.below(slots.size())];
        std::lock_guard<std::mutex> lock(S.mailbox);
        if (S.mail.size() < 4) S.mail.push_back({a.m, a.x, 0});
      }
      break;
    }
    case 13: {
      const Slot& a = slots[rng.below(slots.size())];
      std::stringstream s;
      {
        cereal::JSONOutputArchive out(s);
        out(cereal::make_nvp("x", a.x));
      }
      RealPtr back;
      {
        cereal::JSONInputArchive in(s);
        in(cereal::make_nvp("x", back));
      }
      if (back != a.x) failed("restored number is not the one that was saved");
      break;
    }
    case 14: elementStep<IntegerRing>(); break;
    default: elementStep<RationalField>();
  }
}

void Worker::run(int nsteps) {
  jitter = mix(rng.next()) | 1;
  strength = S.strength;
  injected = 0;
  S.ready.fetch_add(1, std::memory_order_relaxed);
  while (!S.go.load(std::memory_order_relaxed)) sched_yield();
  try {
    if (nsteps < 0) {
      // as many fresh numbers as possible at the same time
      for (int i = 0; i < -nsteps; i++) fresh.push_back(RealNumber::random());
      steps.push_back({ticket(), 16});
    } else
      for (int i = 0; i < nsteps; i++) step();
    steps.push_back({ticket(), 17});
  } catch (const std::exception& e) {
    failed(std::string("unexpected exception: ") + e.what());
  }
  delays = injected;
  jitter = 0;
  S.done.fetch_add(1);
}

double cpuTime() {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
// Are all threads but this one waiting for something?
bool allBlocked() {
  DIR* d = opendir("/proc/self/task");
  if (!d) return false;
  bool blocked = true;
  int n = 0;
  while (auto* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    if (atol(e->d_name) == getpid()) continue;
    std::ifstream f(std::string("/proc/self/task/") + e->d_name + "/stat");
    std::string s((std::istreambuf_iterator<char>(f)), {});
    auto p = s.rfind(')');
    if (p == std::string::npos || p + 2 >= s.size()) continue;
    n++;
    if (s[p + 2] != 'S' && s[p + 2] != 'D') blocked = false;
  }
  closedir(d);
  return blocked && n > 0;
}

// Wait for the threads, or report that they will never finish.
void await(Shared& S) {
  int still = 0;
  double last = cpuTime();
  while (S.done.load() < S.threads) {
    struct timespec t = {0, 2000000};
    nanosleep(&t, nullptr);
    if (++still < 500) continue;  // about once a second
    still = 0;
    static int quiet = 0;
    double now = cpuTime();
    quiet = allBlocked() && now - last < 0.2 ? quiet + 1 : 0;
    last = now;
    if (quiet >= 20 && S.done.load() < S.threads) {
      const char msg[] = "ERROR: VERIF-DEADLOCK: all threads have been waiting for 20 s\n";
      (void)!write(2, msg, sizeof msg - 1);
      _exit(86);
    }
  }
}

template <typename R>
void verify(World& w, Rng& rng, Worker& t) {
  Elements<R> E(w, rng);
  for (auto& x : t.over<R>().elems) E.verify(x, "an element computed by thread " + str(t.id), true, false);
  for (auto& m : t.over<R>().measured) {
    if (m.ball) {
      IV v = w.value(m.p, 400);
      CHECK(!disjoint(v, *m.ball) , "ball", "the ball of " << E.show(m.p) << w.legend() << " is " << *m.ball << " but the value is in " << v);
      tally("balls of elements checked");
    }
    if (m.floor) CHECK(*m.floor == floorTruth(w, m.p), "floor", "floor of " << E.show(m.p) << w.legend() << " is " << *m.floor);
    if (m.ceil) CHECK(*m.ceil == -floorTruth(w, -m.p), "ceil", "ceil of " << E.show(m.p) << w.legend() << " is " << *m.ceil);
    if (m.real) CHECK(*m.real == nearestTruth(w, m.p), "double", "double of " << E.show(m.p) << w.legend() << " is " << *m.real);
    tally("measured");
  }
}

PROPERTY(C20) {
  const bool burst = index % 8 == 7;
  std::unique_ptr<World> wp;
  World w(rng, 0);
  {
    int n = static_cast<int>(rng.range(2, 5));
    while (static_cast<int>(w.vars.size()) < n) {
      auto b = std::make_unique<Base>(randomBase(rng, false));
      if (!b->remake) continue;
      IV i = b->at(20);
      mpq_class s = absq(i.lo) > absq(i.hi) ? absq(i.lo) : absq(i.hi);
      if (s > pow2(40) || s < pow2(-40)) continue;
      w.vars.push_back(std::move(b));
    }
  }
  Shared S(w);
  S.threads = burst ? 4 : static_cast<size_t>(rng.range(2, 6));
  S.strength = rng.of<unsigned>({0, 2, 20, 60, 200});
  if (burst) S.strength = 0;
  // Objects all threads use.
  {
    Elements<IntegerRing> EZ(w, rng);
    Elements<RationalField> EQ(w, rng);
    for (int i = 0; i < 3; i++) {
      S.constZ.push_back(EZ.random(EZ.randomBasis(3, 2), 40));
      S.constQ.push_back(EQ.random(EQ.randomBasis(3, 2), 40));
    }
    for (int i = 0; i < 2; i++) {
      Mono m = w.randomMono(3);
      if (!deg(m)) m = w.var(0);
      S.constReals.push_back(w.real(m));
      S.constMonos.push_back(m);
    }
  }
  // Everything else comes and goes.
  w.reals.clear();
  w.monos.clear();
  for (auto& v : w.vars) v->x.reset();
  std::vector<std::unique_ptr<Worker>> workers;
  for (size_t i = 0; i < S.threads; i++) workers.push_back(std::make_unique<Worker>(S, i, rng.next()));
  int nsteps = burst ? -400 : static_cast<int>(rng.range(20, 120));
  std::vector<std::thread> threads;
  at(str(S.threads) + " threads, " + str(nsteps) + " steps, delays " + str(S.strength) + "/1024" + w.legend());
  for (auto& t : workers) threads.emplace_back([&t, nsteps] { t->run(nsteps); });
  while (S.ready.load(std::memory_order_relaxed) < S.threads) sched_yield();
  S.go.store(true, std::memory_order_relaxed);
  await(S);
  for (auto& t : threads) t.join();

  // ------------------------------------------------------------ check the logs
  at("checking logs");
  for (auto& v : w.vars) v->x = v->remake();
  for (auto& t : workers)
    for (auto& f : t->failures) fail("wrong", f + " in thread " + str(t->id) + w.legend());
  // Objects with the same key that were alive at the same time are the same.
  std::map<std::string, std::vector<Held>> byKey;
  std::map<const void*, std::vector<Held>> byPtr;
  for (auto& t : workers)
    for (auto& h : t->held) {
      byKey[h.key].push_back(h);
      byPtr[h.ptr].push_back(h);
    }
  auto overlap = [](const Held& a, const Held& b) { return std::max(a.from, b.from) < std::min(a.to, b.to); };
  auto sweep = [&](auto& groups, bool sameKey) {
    for (auto& [k, v] : groups) {
      std::sort(v.begin(), v.end(), [](const Held& a, const Held& b) { return a.from < b.from; });
      for (size_t i = 0; i < v.size(); i++)
        for (size_t j = i + 1; j < v.size() && v[j].from < v[i].to; j++) {
          if (!overlap(v[i], v[j])) continue;
          if (sameKey) CHECK(v[i].ptr == v[j].ptr, "not-unique", "two objects " << v[i].key << " existed at the same time" << w.legend());
          else CHECK(v[i].key == v[j].key, "identity", "the same object was returned for " << v[i].key << " and " << v[j].key << w.legend());
          tally(sameKey ? "objects shared at the same time" : "references compared");
        }
    }
  };
  sweep(byKey, true);
  sweep(byPtr, false);
  // Fresh numbers are different from each other.
  std::set<const RealNumber*> fresh;
  std::vector<RealPtr> all;
  for (auto& t : workers)
    for (auto& x : t->fresh) {
      CHECK(fresh.insert(x.get()).second, "fresh-repeated", "random() returned the same number twice");
      all.push_back(x);
      tally("fresh numbers");
    }
  if (!all.empty()) {
    std::set<const RealNumber*> products;
    std::vector<RealPtr> keep;
    RealPtr z = RealNumber::random();
    for (auto& x : all) {
      keep.push_back(*x * *z);
      CHECK(products.insert(keep.back().get()).second, "products-repeated", "products of different fresh numbers with the same number are the same");
    }
    std::sort(all.begin(), all.end(), [](const auto& a, const auto& b) { return a->deglex(*b); });
    for (size_t i = 1; i < all.size(); i++) CHECK(all[i - 1]->deglex(*all[i]) && !all[i]->deglex(*all[i - 1]), "not-ordered", "fresh numbers are not ordered");
  }
  // Approximations are the ones of the number.
  std::map<Mono, IV> truth;
  std::map<std::pair<Mono, long>, Dy> seen;
  for (auto& t : workers) {
    for (auto& a : t->approximations) {
      auto it = truth.find(a.m);
      if (it == truth.end()) it = truth.emplace(a.m, w.value(a.m, 500)).first;
      const IV& v = it->second;
      CHECK(a.value.fin(), "not-finite", "arf(" << a.prec << ") of " << w.name(a.m) << " is " << a.value << w.legend());
      mpq_class q = a.value.q();
      mpq_class err = q < v.lo ? mpq_class(v.lo - q) : q > v.hi ? mpq_class(q - v.hi) : mpq_class(0);
      mpq_class size = absq(v.lo) > absq(v.hi) ? absq(v.lo) : absq(v.hi);
      CHECK(err <= size * pow2(-a.prec), "inaccurate", "arf(" << a.prec << ") of " << w.name(a.m) << " is " << a.value << w.legend());
      if (deg(a.m) == 1) {
        auto [s, inserted] = seen.emplace(std::make_pair(a.m, a.prec), a.value);
        CHECK(inserted || s->second == a.value, "inconsistent", "arf(" << a.prec << ") of " << w.name(a.m) << " was " << s->second << " and " << a.value << w.legend());
      }
      tally("approximations checked");
    }
    for (auto& c : t->compared) {
      bool less = false;
      if (c.a != c.b) {
        IV d = w.value(c.a, 600) - w.value(c.b, 600);
        if (d.lo <= 0 && d.hi >= 0) continue;
        less = d.hi < 0;
      }
      CHECK(less == c.less, "order", w.name(c.a) << " < " << w.name(c.b) << " was " << c.less << w.legend());
      tally("comparisons checked");
    }
    verify<IntegerRing>(w, rng, *t);
    verify<RationalField>(w, rng, *t);
    tally("delays injected", t->delays);
  }
  // The products the threads hold are the ones this thread gets now.
  for (auto& t : workers)
    for (auto& s : t->slots) {
      CHECK(w.real(s.m) == s.x, "not-unique", "creating " << w.name(s.m) << " again did not return the existing one" << w.legend());
      tally("objects found again");
    }
  {
    Elements<IntegerRing> EZ(w, rng);
    for (auto& x : S.constZ) EZ.verify(x, "a shared element", true, false);
    Elements<RationalField> EQ(w, rng);
    for (auto& x : S.constQ) EQ.verify(x, "a shared element", true, false);
  }
  // The interleaving that was seen.
  std::vector<std::tuple<uint64_t, size_t, int>> order;
  for (auto& t : workers) {
    for (auto& [when, what] : t->steps) order.emplace_back(when, t->id, what);
    tally("operations", t->steps.size());
  }
  std::sort(order.begin(), order.end());
  uint64_t h = index;
  size_t switches = 0;
  for (size_t i = 0; i < order.size(); i++) {
    h = hcomb(h, std::get<1>(order[i]) * 32 + static_cast<uint64_t>(std::get<2>(order[i])));
    if (i && std::get<1>(order[i]) != std::get<1>(order[i - 1])) switches++;
  }
  tally("switches between threads", switches);
  peak("threads", static_cast<double>(S.threads));
  cover(h);
  if (index < 2) sample(str(S.threads) + " threads, " + str(order.size()) + " operations, " + str(switches) + " switches");
}
}  // namespace
}  // namespace verif
