// Stand-in for the (empty) submodule external/hash-combine.
#ifndef VERIF_HASH_COMBINE_HPP
#define VERIF_HASH_COMBINE_HPP
#include <cstddef>
#include <functional>

namespace flatsurf {
template <typename T>
size_t hash(const T& value) { return std::hash<T>{}(value); }

template <typename... Args>
size_t hash_combine(size_t seed, Args... args) {
  ((seed ^= static_cast<size_t>(args) + 0x9e3779b97f4a7c15ull + (seed << 6) + (seed >> 2)), ...);
  return seed;
}
}  // namespace flatsurf
#endif
