// Stand-in for flatsurf/unique-factory (an empty git submodule): a map from keys
// to weakly held values, so that get() returns the very same object for the same
// key for as long as that object is alive.
//
// * Lookups compare keys with == and hash them with Hash.
// * create may take no argument, or the key that is going to be stored (which
//   RealNumberProduct's key uses to rewrite itself into its stored form).
// * KeepNothingAlive / KeepSetAlive<V, N>: additionally hold up to N values
//   strongly (the upstream keeps a bounded set of most recent values).
// * All operations are serialized by a recursive mutex. The state is shared with
//   the values' deleters so that values may outlive the factory.
#ifndef VERIF_SHIM_UNIQUE_FACTORY
#define VERIF_SHIM_UNIQUE_FACTORY
#include <cstddef>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace unique_factory {
struct KeepNothingAlive {
  template <typename T> void operator()(const std::shared_ptr<T> &, std::vector<std::shared_ptr<const void>> &) {}
  void clear(std::vector<std::shared_ptr<const void>> &) {}
};

template <typename V, std::size_t N> struct KeepSetAlive {
  std::deque<std::shared_ptr<const V>> alive;
  // Values dropped are moved to `graveyard` so that they are destroyed by the
  // caller outside of the lock.
  template <typename T> void operator()(const std::shared_ptr<T> &v, std::vector<std::shared_ptr<const void>> &graveyard) {
    alive.push_back(v);
    if (alive.size() > N) {
      graveyard.push_back(std::move(alive.front()));
      alive.pop_front();
    }
  }
  void clear(std::vector<std::shared_ptr<const void>> &graveyard) {
    for (auto &v : alive) graveyard.push_back(std::move(v));
    alive.clear();
  }
};

template <typename K, typename V, typename KeepAlive = KeepNothingAlive, typename Hash = std::hash<K>, typename Equal = std::equal_to<K>>
class UniqueFactory {
  struct Entry {
    std::weak_ptr<const V> value;
    const V *raw;
  };
  struct State {
    std::recursive_mutex mutex;
    std::unordered_map<K, Entry, Hash, Equal> cache;
    KeepAlive keep;
  };
  std::shared_ptr<State> state = std::make_shared<State>();

 public:
  using Value = std::conditional_t<true, const V, V>;
  UniqueFactory() = default;
  UniqueFactory(const UniqueFactory &) = delete;
  UniqueFactory &operator=(const UniqueFactory &) = delete;
  ~UniqueFactory() {
    std::vector<std::shared_ptr<const void>> graveyard;
    std::lock_guard<std::recursive_mutex> lock(state->mutex);
    state->keep.clear(graveyard);
  }

  template <typename Create> std::shared_ptr<V> get(const K &key_, Create &&create) {
    std::vector<std::shared_ptr<const void>> graveyard;
    std::shared_ptr<V> ret;
    {
      std::lock_guard<std::recursive_mutex> lock(state->mutex);
      {
        auto it = state->cache.find(key_);
        if (it != state->cache.end()) {
          if (auto v = it->second.value.lock()) return std::const_pointer_cast<V>(v);
          // The value is being destroyed by another thread; its deleter has not
          // removed the entry yet.
          state->cache.erase(it);
        }
      }
      K key(key_);
      std::unique_ptr<V> owned;
      if constexpr (std::is_invocable_v<Create, const K &>) owned.reset(create(static_cast<const K &>(key)));
      else owned.reset(create());
      V *const raw = owned.get();
      std::weak_ptr<State> weak = state;
      auto deleter = [weak, key](V *v) {
        if (auto s = weak.lock()) {
          std::vector<std::shared_ptr<const void>> graveyard;
          {
            // Destroy the stored key (which may own other unique objects) only
            // after the lock has been released.
            typename std::unordered_map<K, Entry, Hash, Equal>::node_type node;
            {
              std::lock_guard<std::recursive_mutex> lock(s->mutex);
              for (auto range = s->cache.equal_range(key); range.first != range.second; ++range.first)
                if (range.first->second.raw == v) {
                  node = s->cache.extract(range.first);
                  break;
                }
            }
          }
        }
        delete v;
      };
      // (If this throws, it has called the deleter.)
      owned.release();
      ret = std::shared_ptr<V>(raw, std::move(deleter));
      state->cache.emplace(std::move(key), Entry{ret, raw});
      state->keep(ret, graveyard);
    }
    return ret;
  }
};
}  // namespace unique_factory
#endif
