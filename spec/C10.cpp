// C10: sample numbering. Waypoint 0 owns sample 0, segment j owns the next N[j]
// samples, and waypoint w's samples start after those of all earlier segments.
#include "common.hpp"
#include "trajopt/util/TrajoptUtil.hpp"
namespace impl {
size_t index(const std::vector<size_t>& N, size_t w, size_t k) { return GetIndex(N, w, k); }
size_t index_of_first(const std::vector<size_t>& N, size_t w) { return GetIndex(N, w); }
}
namespace ref {
size_t index(const std::vector<size_t>& N, size_t w, size_t k) {
  if (w == 0) {
    return k;
  }
  size_t r = 1 + k;
  for (size_t j = 0; j + 1 < w; ++j) {
    r += N[j];
  }
  return r;
}
size_t index_of_first(const std::vector<size_t>& N, size_t w) { return index(N, w, 0); }
}
namespace pre {
bool index(const std::vector<size_t>& N, size_t w, size_t k) { return w <= N.size() + 1; }
bool index_of_first(const std::vector<size_t>& N, size_t w) { return w <= N.size() + 1; }
}
