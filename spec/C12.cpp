// C12: the linear initial guess has one sample per control interval plus the
// first, walks from each guess point to the next in equal steps along straight
// lines and the shorter turn, and ends every segment exactly on its waypoint.
#include "builder.hpp"
#include "trajopt/solution/DifferentialSolution.hpp"
#include "trajopt/solution/SwerveSolution.hpp"
#include "trajopt/util/TrajoptUtil.hpp"
struct Path {
  std::vector<double> x, y, c, s, dt;
};
namespace impl {
Path guess(const Guess& g, const Counts& n) {
  auto r = GenerateLinearInitialGuess<SwerveSolution>(g, n);
  return {r.x, r.y, r.thetacos, r.thetasin, r.dt};
}
// The same through the builder, for any state of it.
Path of_builder(const SwervePathBuilder& b) {
  auto r = b.CalculateInitialGuess();
  return {r.x, r.y, r.thetacos, r.thetasin, r.dt};
}
}  // namespace impl
namespace ref {
double turn(double a, double b) {
  double d = b - a;
  d -= 2 * std::numbers::pi * std::trunc((d + std::numbers::pi) / (2 * std::numbers::pi));
  d -= 2 * std::numbers::pi * std::trunc((d - std::numbers::pi) / (2 * std::numbers::pi));
  return d;
}
// n equal steps from p to q, q included and p not.
void walk(Path& r, const Pose2d& p, const Pose2d& q, size_t n) {
  double a = std::atan2(p.Rotation().Sin(), p.Rotation().Cos());
  double b = std::atan2(q.Rotation().Sin(), q.Rotation().Cos());
  for (size_t k = 0; k < n; ++k) {
    r.x.push_back(p.X() + (q.X() - p.X()) * (k + 1) / n);
    r.y.push_back(p.Y() + (q.Y() - p.Y()) * (k + 1) / n);
    r.c.push_back(std::cos(a + turn(a, b) * (k + 1) / n));
    r.s.push_back(std::sin(a + turn(a, b) * (k + 1) / n));
  }
}
Path guess(const Guess& g, const Counts& n) {
  Path r;
  size_t total = 1;
  for (size_t k = 0; k < n.size(); ++k) {
    total += n[k];
  }
  for (size_t k = 0; k < total; ++k) {
    r.dt.push_back((n.size() + 1) * 5.0 / total);
  }
  r.x.push_back(g[0][0].X());
  r.y.push_back(g[0][0].Y());
  r.c.push_back(g[0][0].Rotation().Cos());
  r.s.push_back(g[0][0].Rotation().Sin());
  for (size_t w = 0; w < n.size(); ++w) {
    size_t m = g[w + 1].size();
    size_t part = n[w] / m;
    for (size_t k = 0; k < m; ++k) {
      const Pose2d& from = k == 0 ? g[w].back() : g[w + 1][k - 1];
      walk(r, from, g[w + 1][k], k + 1 < m ? part : n[w] - (m - 1) * part);
    }
  }
  return r;
}
Path of_builder(const SwervePathBuilder& b) { return guess(spec::guess_points(b), b.GetControlIntervalCounts()); }
}  // namespace ref
namespace pre {
bool guess(const Guess& g, const Counts& n) { return g.size() == n.size() + 1; }
bool of_builder(const SwervePathBuilder& b) {
  return spec::guess_points(b).size() == b.GetControlIntervalCounts().size() + 1;
}
}  // namespace pre
