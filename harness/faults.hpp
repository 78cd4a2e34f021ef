// Makes allocations of the library fail.  (Included by one monitor only.)
#ifndef VERIF_FAULTS_HPP
#define VERIF_FAULTS_HPP
#include <cstddef>
#include <cstdlib>
#include <new>
#include <unwind.h>
#include <dlfcn.h>
#include <link.h>

#include <unordered_set>

#include "common.hpp"

namespace verif {
// While armed, fails the n-th allocation by the library (or all of them from that one on.)
struct Injector {
  bool armed = false, persistent = false, fired = false;
  long countdown = 0, seen = 0;
  uintptr_t site = 0;  // who asked for the memory that was refused
};
inline Injector injector;

namespace faults {
struct Range {
  uintptr_t from, to;
  bool contains(uintptr_t p) const { return from <= p && p < to; }
};
struct Map {
  Range self{0, 0};
  std::vector<Range> foreign;  // libraries that are not ready for this
};
inline const Map& maps() {
  static const Map m = [] {
    Map r;
    dl_iterate_phdr(
        [](dl_phdr_info* info, size_t, void* data) {
          Range x{~uintptr_t(0), 0};
          for (int i = 0; i < info->dlpi_phnum; i++)
            if (info->dlpi_phdr[i].p_type == PT_LOAD) {
              uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, b = a + info->dlpi_phdr[i].p_memsz;
              if (a < x.from) x.from = a;
              if (b > x.to) x.to = b;
            }
          auto& r = *static_cast<Map*>(data);
          std::string name = info->dlpi_name ? info->dlpi_name : "";
          if (name.empty() && !r.self.to) r.self = x;
          else if (name.find("antic") != std::string::npos || name.find("flint") != std::string::npos || name.find("gmp") != std::string::npos || name.find("mpfr") != std::string::npos) r.foreign.push_back(x);
          return 0;
        },
        &r);
    return r;
  }();
  return m;
}
struct Walk {
  int skip;
  uintptr_t site;
};
inline _Unwind_Reason_Code step(_Unwind_Context* c, void* data) {
  auto& w = *static_cast<Walk*>(data);
  uintptr_t ip = _Unwind_GetIP(c);
  if (w.skip-- > 0) return _URC_NO_REASON;
  for (auto& s : maps().foreign)
    if (s.contains(ip)) {
      // Everything below would have to be prepared for this.
      w.site = 0;
      return _URC_END_OF_STACK;
    }
  if (!w.site && maps().self.contains(ip)) w.site = ip - maps().self.from;
  return _URC_NO_REASON;
}
// Whoever in this executable asked for memory, if it was not on behalf of another library.
__attribute__((noinline)) inline uintptr_t caller() {
  Walk w{3, 0};  // this, refuse(), operator new
  _Unwind_Backtrace(step, &w);
  return w.site;
}
__attribute__((noinline)) inline bool refuse() {
  Injector& i = injector;
  if (i.countdown > 0) {
    i.countdown--;
    return false;
  }
  if (i.fired && !i.persistent) return false;
  i.armed = false;
  uintptr_t site = caller();
  i.armed = true;
  if (!site) return false;  // in somebody else's code, try the next one
  if (!i.fired) i.site = site;
  i.fired = true;
  return true;
}
__attribute__((always_inline)) inline void* obtain(size_t n, bool nothrow) {
  if (injector.armed) {
    injector.seen++;
    if (refuse()) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
}  // namespace faults
}  // namespace verif

__attribute__((noinline)) void* operator new(size_t n) { return verif::faults::obtain(n, false); }
__attribute__((noinline)) void* operator new[](size_t n) { return verif::faults::obtain(n, false); }
__attribute__((noinline)) void* operator new(size_t n, const std::nothrow_t&) noexcept { return verif::faults::obtain(n, true); }
__attribute__((noinline)) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return verif::faults::obtain(n, true); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif
