// C23: builders and generators are independent of each other.
#include "ffi.hpp"
struct All {
  Waypoints waypoints;
  Counts counts;
  Guess guess;
  SwerveDrivetrain drivetrain;
  std::vector<std::function<void(SwerveSolution&, int64_t)>> callbacks;
};
inline All all(SwervePathBuilder& b) {
  return {b.GetPath().waypoints, b.GetControlIntervalCounts(), spec::guess_points(b), b.GetPath().drivetrain,
          b.GetPath().callbacks};
}
// Everything a client can do to a builder, at its last waypoint.
inline void disturb(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d) {
  for (auto& w : b.GetPath().waypoints) {
    w.waypointConstraints.push_back(c);
    w.segmentConstraints.push_back(c);
  }
  b.GetPath().waypoints.push_back(Waypoint{});
  b.ControlIntervalCounts({});
  b.SetDrivetrain(d);
  b.AddBumpers(Bumpers{1.0, {{1.0, 2.0}}});
  b.AddIntermediateCallback([](SwerveSolution&, int64_t) {});
}
namespace impl {
All copies(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d) {
  SwervePathBuilder a{b};
  disturb(a, c, p, d);
  return all(b);
}
All originals(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d) {
  SwervePathBuilder a{b};
  disturb(b, c, p, d);
  return all(a);
}
All constructing(SwervePathBuilder& b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  return all(b);
}
All generating(Shim& s, bool diagnostics, int64_t handle) {
  try {
    s.generate(diagnostics, handle);
  } catch (const std::exception&) {
  }
  return all(spec::inner(s));
}
SwerveSolution keeps(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  disturb(b, c, p, d);
  return g.Generate(false).value();
}
SwerveSolution moved(SwervePathBuilder& b, int64_t handle) {
  SwerveTrajectoryGenerator* g = new SwerveTrajectoryGenerator{b, handle};
  SwerveTrajectoryGenerator h{std::move(*g)};
  delete g;
  return h.Generate(false).value();
}
SwerveSolution copied(SwervePathBuilder& b, int64_t handle) {
  SwerveTrajectoryGenerator* g = new SwerveTrajectoryGenerator{b, handle};
  SwerveTrajectoryGenerator h{*g};
  delete g;
  return h.Generate(false).value();
}
}  // namespace impl
namespace ref {
All copies(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d) { return all(b); }
All originals(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d) { return all(b); }
All constructing(SwervePathBuilder& b, int64_t handle) { return all(b); }
All generating(Shim& s, bool diagnostics, int64_t handle) { return all(spec::inner(s)); }
SwerveSolution keeps(SwervePathBuilder& b, const Constraint& c, const Pose2d& p, const SwerveDrivetrain& d, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  return g.Generate(false).value();
}
SwerveSolution moved(SwervePathBuilder& b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  return g.Generate(false).value();
}
SwerveSolution copied(SwervePathBuilder& b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  return g.Generate(false).value();
}
}  // namespace ref
