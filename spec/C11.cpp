// C11: Linspace excludes its start, includes its end and has n equal steps;
// AngleLinspace does the same along the shorter way round.
#include "common.hpp"
#include "trajopt/util/TrajoptUtil.hpp"
namespace impl {
std::vector<double> linspace(double a, double b, size_t n) { return Linspace(a, b, n); }
std::vector<double> angle_linspace(double a, double b, size_t n) { return AngleLinspace(a, b, n); }
}
namespace ref {
std::vector<double> linspace(double a, double b, size_t n) {
  std::vector<double> r;
  for (size_t i = 0; i < n; ++i) {
    r.push_back(a + (b - a) * (i + 1) / n);
  }
  return r;
}
// The difference reduced into [-pi, pi] by a whole number of turns.
std::vector<double> angle_linspace(double a, double b, size_t n) {
  double d = b - a;
  d -= 2 * std::numbers::pi * std::trunc((d + std::numbers::pi) / (2 * std::numbers::pi));
  d -= 2 * std::numbers::pi * std::trunc((d - std::numbers::pi) / (2 * std::numbers::pi));
  std::vector<double> r;
  for (size_t i = 0; i < n; ++i) {
    r.push_back(a + d * (i + 1) / n);
  }
  return r;
}
}
