// Stand-in for flatsurf/hash-combine (an empty git submodule).
#ifndef VERIF_SHIM_HASH_COMBINE
#define VERIF_SHIM_HASH_COMBINE
#include <cstddef>
#include <functional>
namespace flatsurf {
template <typename T> std::size_t hash(const T &v) { return std::hash<T>()(v); }
inline std::size_t hash_combine(std::size_t a) { return a; }
template <typename... R>
std::size_t hash_combine(std::size_t a, std::size_t b, R... rest) {
  return hash_combine(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4)), static_cast<std::size_t>(rest)...);
}
}  // namespace flatsurf
#endif
