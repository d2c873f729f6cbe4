// C01: every waypoint and segment constraint lands exactly where it was asked for.
#include "builder.hpp"
namespace impl {
Waypoints wpt(SwervePathBuilder& b, size_t i, const Constraint& c) {
  b.WptConstraint(i, c);
  return b.GetPath().waypoints;
}
Waypoints sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  b.SgmtConstraint(i, j, c);
  return b.GetPath().waypoints;
}
Waypoints pose(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  b.PoseWpt(i, x, y, h);
  return b.GetPath().waypoints;
}
Waypoints translation(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  b.TranslationWpt(i, x, y, h);
  return b.GetPath().waypoints;
}
Waypoints guess_only(SwervePathBuilder& b, size_t i, const Pose2d& p) {
  b.WptInitialGuessPoint(i, p);
  return b.GetPath().waypoints;
}
Waypoints sgmt_guess_only(SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& p) {
  b.SgmtInitialGuessPoints(i, p);
  return b.GetPath().waypoints;
}
Waypoints fresh() {
  SwervePathBuilder b;
  return b.GetPath().waypoints;
}
Waypoints others(SwervePathBuilder& b, Counts n, Bumpers z, const SwerveDrivetrain& d,
                 const std::function<void(SwerveSolution&, int64_t)>& f) {
  b.ControlIntervalCounts(std::move(n));
  b.AddBumpers(std::move(z));
  b.SetDrivetrain(d);
  b.AddIntermediateCallback(f);
  return b.GetPath().waypoints;
}
}  // namespace impl
namespace ref {
void extend(Waypoints& w, size_t i) {
  for (size_t k = w.size(); k <= i; ++k) {
    w.push_back(Waypoint{});
  }
}
Waypoints wpt(SwervePathBuilder& b, size_t i, const Constraint& c) {
  Waypoints w = b.GetPath().waypoints;
  extend(w, i);
  w[i].waypointConstraints.push_back(c);
  return w;
}
Waypoints sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) {
  Waypoints w = b.GetPath().waypoints;
  extend(w, j);
  for (size_t k = i; k <= j; ++k) {
    w[k].waypointConstraints.push_back(c);
  }
  for (size_t k = i + 1; k <= j; ++k) {
    w[k].segmentConstraints.push_back(c);
  }
  return w;
}
Waypoints pose(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return wpt(b, i, Constraint{PoseEqualityConstraint{x, y, h}});
}
Waypoints translation(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return wpt(b, i, Constraint{TranslationEqualityConstraint{x, y}});
}
Waypoints guess_only(SwervePathBuilder& b, size_t i, const Pose2d& p) {
  Waypoints w = b.GetPath().waypoints;
  extend(w, i);
  return w;
}
Waypoints sgmt_guess_only(SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& p) {
  Waypoints w = b.GetPath().waypoints;
  extend(w, i + 1);
  return w;
}
Waypoints fresh() { return {}; }
Waypoints others(SwervePathBuilder& b, Counts n, Bumpers z, const SwerveDrivetrain& d,
                 const std::function<void(SwerveSolution&, int64_t)>& f) {
  return b.GetPath().waypoints;
}
}  // namespace ref
namespace pre {
bool sgmt(SwervePathBuilder& b, size_t i, size_t j, const Constraint& c) { return i < j; }
bool guess_only(SwervePathBuilder& b, size_t i, const Pose2d& p) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
bool sgmt_guess_only(SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& p) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
bool pose(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
bool translation(SwervePathBuilder& b, size_t i, double x, double y, double h) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
}  // namespace pre
