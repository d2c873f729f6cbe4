// C02: waypoints, control interval counts and guess lists grow in lock step,
// and nothing an operation is not about changes.
#include "builder.hpp"
struct Rest {
  SwerveDrivetrain drivetrain;
  size_t callbacks;
};
inline Rest rest(SwervePathBuilder& b) { return {b.GetPath().drivetrain, b.GetPath().callbacks.size()}; }
struct Shape {
  size_t waypoints;
  Counts counts;
  size_t guesses;
  Rest rest;
};
inline Shape shape(SwervePathBuilder& b) {
  return {b.GetPath().waypoints.size(), b.GetControlIntervalCounts(), spec::guess_points(b).size(), rest(b)};
}
inline void extend(Shape& s, size_t i) {
  for (size_t k = s.waypoints; k <= i; ++k) {
    if (k > 0) {
      s.counts.push_back(40);
    }
    s.guesses += 1;
  }
  s.waypoints = s.waypoints < i + 1 ? i + 1 : s.waypoints;
}
#define GROWS(name, last, params, call)          \
  namespace impl {                               \
  Shape name params {                            \
    call;                                        \
    return shape(b);                             \
  }                                              \
  }                                              \
  namespace ref {                                \
  Shape name params {                            \
    Shape s = shape(b);                          \
    extend(s, last);                             \
    return s;                                    \
  }                                              \
  }                                              \
  namespace pre {                                \
  bool name params {                             \
    return spec::guess_points(b).size() == b.GetPath().waypoints.size(); \
  }                                              \
  }
GROWS(wpt, i, (SwervePathBuilder & b, size_t i, const Constraint& c), b.WptConstraint(i, c))
GROWS(pose, i, (SwervePathBuilder & b, size_t i, double x, double y, double h), b.PoseWpt(i, x, y, h))
GROWS(translation, i, (SwervePathBuilder & b, size_t i, double x, double y, double h), b.TranslationWpt(i, x, y, h))
GROWS(guess, i, (SwervePathBuilder & b, size_t i, const Pose2d& p), b.WptInitialGuessPoint(i, p))
GROWS(sgmt_guess, i + 1, (SwervePathBuilder & b, size_t i, const std::vector<Pose2d>& p),
      b.SgmtInitialGuessPoints(i, p))
namespace impl {
Shape sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  b.SgmtConstraint(i, j, c);
  return shape(b);
}
Shape set_counts(SwervePathBuilder& b, const Counts& n) {
  b.ControlIntervalCounts(Counts{n});
  return shape(b);
}
Shape set_drivetrain(SwervePathBuilder& b, const SwerveDrivetrain& d) {
  b.SetDrivetrain(d);
  return shape(b);
}
Shape add_callback(SwervePathBuilder& b, const std::function<void(SwerveSolution&, int64_t)>& f) {
  b.AddIntermediateCallback(f);
  return shape(b);
}
Shape add_bumpers(SwervePathBuilder& b, const Bumpers& z) {
  b.AddBumpers(Bumpers{z});
  return shape(b);
}
Shape look(SwervePathBuilder& b) {
  (void)b.GetPath();
  (void)b.CalculateInitialGuess();
  (void)b.GetControlIntervalCounts();
  return shape(b);
}
Shape fresh() {
  SwervePathBuilder b;
  Shape s;
  s.waypoints = b.GetPath().waypoints.size();
  s.counts = b.GetControlIntervalCounts();
  s.guesses = spec::guess_points(b).size();
  s.rest.drivetrain.modules = b.GetPath().drivetrain.modules;
  s.rest.drivetrain.mass = 0;
  s.rest.drivetrain.moi = 0;
  s.rest.callbacks = b.GetPath().callbacks.size();
  return s;
}
}  // namespace impl
namespace ref {
Shape sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  Shape s = shape(b);
  extend(s, j);
  return s;
}
Shape set_counts(SwervePathBuilder& b, const Counts& n) {
  Shape s = shape(b);
  s.counts = n;
  return s;
}
Shape set_drivetrain(SwervePathBuilder& b, const SwerveDrivetrain& d) {
  Shape s = shape(b);
  s.rest.drivetrain = d;
  return s;
}
Shape add_callback(SwervePathBuilder& b, const std::function<void(SwerveSolution&, int64_t)>& f) {
  Shape s = shape(b);
  s.rest.callbacks += 1;
  return s;
}
Shape add_bumpers(SwervePathBuilder& b, const Bumpers& z) { return shape(b); }
Shape look(SwervePathBuilder& b) { return shape(b); }
Shape fresh() { return {0, {}, 0, {{0, 0, {}}, 0}}; }
}  // namespace ref
namespace pre {
bool sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  return i < j && spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
}  // namespace pre
