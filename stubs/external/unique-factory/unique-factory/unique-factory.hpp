// Stand-in for the (empty) submodule external/unique-factory: a factory that
// hands out the object for a key, creating it only when no previously created
// one is still alive. Some objects are kept alive by the factory itself.
#ifndef VERIF_UNIQUE_FACTORY_HPP
#define VERIF_UNIQUE_FACTORY_HPP
#include <cstddef>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <type_traits>
#include <unordered_map>

namespace unique_factory {


// Keeps nothing alive; objects die with their last external reference.
struct KeepNothingAlive {
  template <typename V>
  void operator()(const std::shared_ptr<const V>&) {}
};

// Keeps (at least) the last N objects that have been requested alive.
template <typename V, size_t N>
struct KeepSetAlive {
  void operator()(const std::shared_ptr<const V>& value) {
    if (!alive.empty() && alive.back() == value) return;
    alive.push_back(value);
    if (alive.size() > N) alive.pop_front();
  }

 private:
  std::deque<std::shared_ptr<const V>> alive;
};

template <typename K, typename V, typename KeepAlive = KeepNothingAlive, typename Hash = std::hash<K>>
class UniqueFactory {
 public:
  template <typename Create>
  std::shared_ptr<const V> get(const K& key, Create create) {
    std::lock_guard<std::recursive_mutex> lock(mutex);

    const auto known = cache.find(key);
    if (known != cache.end()) {
      if (auto alive = known->second.lock()) {
        keep(alive);
        return alive;
      }
      cache.erase(known);
    }

    if (cache.size() >= purge) {
      for (auto it = cache.begin(); it != cache.end();)
        if (it->second.expired()) it = cache.erase(it);
        else ++it;
      purge = 2 * cache.size() + 16;
    }

    std::shared_ptr<const V> value;
    if constexpr (std::is_invocable_v<Create, const K&>)
      value = std::shared_ptr<const V>(create(key));
    else
      value = std::shared_ptr<const V>(create());

    cache.emplace(key, value);
    keep(value);
    return value;
  }

 private:
  std::recursive_mutex mutex;
  size_t purge = 16;
  KeepAlive keep;
  std::unordered_map<K, std::weak_ptr<const V>, Hash> cache;
};
}  // namespace unique_factory
#endif
