// Harness runtime: deterministic case generation, violation reporting, progress
// tracking and coverage accounting.  See DESIGN.md ("Anatomy of a check").
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <gmpxx.h>

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace verif {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }
uint64_t hstr(const std::string& s);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix(s);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a) + 1)); }
  bool chance(int num, int den) { return below(den) < static_cast<uint64_t>(num); }
  template <typename V>
  auto& pick(V& v) { return v[below(v.size())]; }
  template <typename T>
  T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// Thrown by fail(); ends the current case.
struct Fail {};

// Report a violation of the property under test and abandon the current case.
[[noreturn]] void fail(const std::string& key, const std::string& detail);
inline void check(bool ok, const char* key, const std::function<std::string()>& detail) {
  if (!ok) fail(key, detail());
}
#define CHECK(cond, key, detail)                 \
  do {                                           \
    if (!(cond)) {                               \
      std::ostringstream check_os_;              \
      check_os_ << "[" #cond "] " << detail;     \
      ::verif::fail(key, check_os_.str());       \
    }                                            \
  } while (0)

// Count one observation of kind `name` (an oracle decision or an event).
void tally(const std::string& name, uint64_t n = 1);
// Record a maximum.
void peak(const std::string& name, double v);
// Register a distinct, non-trivial case (by hash of its inputs).
void cover(uint64_t h);
// Keep a sample of what was run.
void sample(const std::string& s);
// Note what the current case is doing, for crash reports.
void at(const std::string& what);

// Run a case body that is allowed to throw only Ex (an std::exception type).
template <typename Ex, typename F>
void must_throw(const char* key, F&& f, const std::string& what) {
  try {
    f();
  } catch (const Ex&) {
    tally("rejected with the documented exception");
    return;
  } catch (const Fail&) {
    throw;
  } catch (const std::exception& e) {
    fail(key, what + ": threw a different exception: " + e.what());
  }
  fail(key, what + ": did not throw");
}

using CaseFn = void (*)(Rng&, long index);
struct Register {
  Register(const char* name, CaseFn fn);
};
#define PROPERTY(name)                                       \
  static void case_##name(::verif::Rng&, long);              \
  static ::verif::Register register_##name(#name, case_##name); \
  static void case_##name([[maybe_unused]] ::verif::Rng& rng, [[maybe_unused]] long index)

// The case function registered under this name if there is one.
CaseFn findCase(const std::string& name);
// While a case of another property is run as the workload of this one,
// violations of the other property only end the case, and nothing is recorded.
bool borrowed();
void setBorrowed(bool on);

bool thorough();
uint64_t base_seed();
const std::string& scratch();  // a directory of its own for this shard
const std::string& self_exe();

template <typename T>
std::string str(const T& x) {
  std::ostringstream os;
  os << x;
  return os.str();
}

}  // namespace verif

#endif
