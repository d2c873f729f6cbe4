// C03: the initial guess passes through the points given, in the order given.
#include "builder.hpp"
#define NEEDS(name, params)                      \
  namespace pre {                                \
  bool name params {                             \
    return spec::guess_points(b).size() == b.GetPath().waypoints.size(); \
  }                                              \
  }
namespace impl {
Guess wpt(SwervePathBuilder& b, size_t i, double x, double y, double c, double s) {
  b.WptInitialGuessPoint(i, Pose2d{x, y, Rotation2d{c, s}});
  return spec::guess_points(b);
}
Guess pose(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  b.PoseWpt(i, x, y, h);
  return spec::guess_points(b);
}
Guess translation(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  b.TranslationWpt(i, x, y, h);
  return spec::guess_points(b);
}
Guess translation_default(SwervePathBuilder& b, size_t i, double x, double y) {
  b.TranslationWpt(i, x, y);
  return spec::guess_points(b);
}
Guess sgmt(SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& p) {
  b.SgmtInitialGuessPoints(i, p);
  return spec::guess_points(b);
}
Guess constrained(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  b.WptConstraint(i, c);
  b.SgmtConstraint(i, j, c);
  return spec::guess_points(b);
}
Guess others(SwervePathBuilder& b, Counts n, Bumpers z, const SwerveDrivetrain& d,
             const std::function<void(SwerveSolution&, int64_t)>& f) {
  b.ControlIntervalCounts(std::move(n));
  b.AddBumpers(std::move(z));
  b.SetDrivetrain(d);
  b.AddIntermediateCallback(f);
  return spec::guess_points(b);
}
// The guess is computed from the points and the counts, whatever they are.
SwerveSolution calculate(const SwervePathBuilder& b) { return b.CalculateInitialGuess(); }
}  // namespace impl
namespace ref {
Guess wpt(SwervePathBuilder& b, size_t i, double x, double y, double c, double s) {
  State z = state(b);
  grow(z, i);
  z.guess[i].back() = Pose2d{x, y, Rotation2d{c, s}};
  return z.guess;
}
Guess pose(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return wpt(b, i, x, y, std::cos(h), std::sin(h));
}
Guess translation(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return wpt(b, i, x, y, std::cos(h), std::sin(h));
}
Guess translation_default(SwervePathBuilder& b, size_t i, double x, double y) {
  return wpt(b, i, x, y, 1.0, 0.0);
}
Guess sgmt(SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& p) {
  State z = state(b);
  grow(z, i + 1);
  std::vector<Pose2d> g;
  for (size_t k = 0; k < p.size(); ++k) {
    g.push_back(p[k]);
  }
  for (size_t k = 0; k < z.guess[i + 1].size(); ++k) {
    g.push_back(z.guess[i + 1][k]);
  }
  z.guess[i + 1] = g;
  return z.guess;
}
Guess constrained(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  State z = state(b);
  grow(z, j);
  return z.guess;
}
Guess others(SwervePathBuilder& b, Counts n, Bumpers z, const SwerveDrivetrain& d,
             const std::function<void(SwerveSolution&, int64_t)>& f) {
  return spec::guess_points(b);
}
SwerveSolution calculate(const SwervePathBuilder& b) {
  return GenerateLinearInitialGuess<SwerveSolution>(spec::guess_points(b), b.GetControlIntervalCounts());
}
}  // namespace ref
NEEDS(wpt, (SwervePathBuilder & b, size_t i, double x, double y, double c, double s))
NEEDS(pose, (SwervePathBuilder & b, size_t i, double x, double y, double h))
NEEDS(translation, (SwervePathBuilder & b, size_t i, double x, double y, double h))
NEEDS(translation_default, (SwervePathBuilder & b, size_t i, double x, double y))
NEEDS(sgmt, (SwervePathBuilder & b, size_t i, const std::vector<Pose2d>& p))
namespace pre {
bool constrained(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  return i < j && spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
}  // namespace pre
