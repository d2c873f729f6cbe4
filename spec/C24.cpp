// C24: every operation of the Rust bindings' C++ half does to its builder what
// the operation of the same meaning does.
#include "ffi.hpp"
#include "trajopt/util/Cancellation.hpp"
using RPoses = rust::Vec<trajopt::rsffi::Pose2d>;
using RReals = rust::Vec<double>;
using RCounts = rust::Vec<size_t>;
namespace impl {
Builder pose_wpt(Shim& s, size_t i, double x, double y, double h) {
  s.pose_wpt(i, x, y, h);
  return spec::inner(s);
}
Builder translation_wpt(Shim& s, size_t i, double x, double y, double h) {
  s.translation_wpt(i, x, y, h);
  return spec::inner(s);
}
Builder empty_wpt(Shim& s, size_t i, double x, double y, double h) {
  s.empty_wpt(i, x, y, h);
  return spec::inner(s);
}
Builder sgmt_initial_guess_points(Shim& s, size_t i, const RPoses& g) {
  s.sgmt_initial_guess_points(i, g);
  return spec::inner(s);
}
Builder set_drivetrain(Shim& s, const trajopt::rsffi::SwerveDrivetrain& d) {
  s.set_drivetrain(d);
  return spec::inner(s);
}
Builder set_control_interval_counts(Shim& s, const RCounts& n) {
  s.set_control_interval_counts(n);
  return spec::inner(s);
}
Builder wpt_linear_velocity_direction(Shim& s, size_t i, double a) {
  s.wpt_linear_velocity_direction(i, a);
  return spec::inner(s);
}
Builder wpt_linear_velocity_max_magnitude(Shim& s, size_t i, double a) {
  s.wpt_linear_velocity_max_magnitude(i, a);
  return spec::inner(s);
}
Builder wpt_angular_velocity_max_magnitude(Shim& s, size_t i, double a) {
  s.wpt_angular_velocity_max_magnitude(i, a);
  return spec::inner(s);
}
Builder wpt_linear_acceleration_max_magnitude(Shim& s, size_t i, double a) {
  s.wpt_linear_acceleration_max_magnitude(i, a);
  return spec::inner(s);
}
Builder wpt_point_at(Shim& s, size_t i, double x, double y, double tol) {
  s.wpt_point_at(i, x, y, tol);
  return spec::inner(s);
}
Builder sgmt_linear_velocity_direction(Shim& s, size_t i, size_t j, double a) {
  s.sgmt_linear_velocity_direction(i, j, a);
  return spec::inner(s);
}
Builder sgmt_linear_velocity_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  s.sgmt_linear_velocity_max_magnitude(i, j, a);
  return spec::inner(s);
}
Builder sgmt_angular_velocity_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  s.sgmt_angular_velocity_max_magnitude(i, j, a);
  return spec::inner(s);
}
Builder sgmt_linear_acceleration_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  s.sgmt_linear_acceleration_max_magnitude(i, j, a);
  return spec::inner(s);
}
Builder sgmt_point_at(Shim& s, size_t i, size_t j, double x, double y, double tol) {
  s.sgmt_point_at(i, j, x, y, tol);
  return spec::inner(s);
}
Builder sgmt_circle_obstacle(Shim& s, size_t i, size_t j, double x, double y, double r) {
  s.sgmt_circle_obstacle(i, j, x, y, r);
  return spec::inner(s);
}
Builder sgmt_polygon_obstacle(Shim& s, size_t i, size_t j, const RReals& x, const RReals& y, double r) {
  s.sgmt_polygon_obstacle(i, j, x, y, r);
  return spec::inner(s);
}
Waypoints set_bumpers(double length, double width, double x, double y, double r) {
  auto s = trajopt::rsffi::swerve_path_builder_new();
  s->set_bumpers(length, width);
  spec::inner(*s).WptObstacle(0, Obstacle{r, {{x, y}}});
  return spec::inner(*s).GetPath().waypoints;
}
Waypoints set_bumpers_line(double length, double width, const Translation2d& p, const Translation2d& q, double r) {
  auto s = trajopt::rsffi::swerve_path_builder_new();
  s->set_bumpers(length, width);
  spec::inner(*s).WptObstacle(0, Obstacle{r, {p, q}});
  return spec::inner(*s).GetPath().waypoints;
}
Builder fresh() {
  auto s = trajopt::rsffi::swerve_path_builder_new();
  return spec::inner(*s);
}
void cancel() { trajopt::rsffi::cancel_all(); }
}  // namespace impl
namespace ref {
Builder pose_wpt(Shim& s, size_t i, double x, double y, double h) {
  Builder b = spec::inner(s);
  b.PoseWpt(i, x, y, h);
  return b;
}
Builder translation_wpt(Shim& s, size_t i, double x, double y, double h) {
  Builder b = spec::inner(s);
  b.TranslationWpt(i, x, y, h);
  return b;
}
Builder empty_wpt(Shim& s, size_t i, double x, double y, double h) {
  Builder b = spec::inner(s);
  b.WptInitialGuessPoint(i, Pose2d{x, y, Rotation2d{h}});
  return b;
}
Builder sgmt_initial_guess_points(Shim& s, size_t i, const RPoses& g) {
  Builder b = spec::inner(s);
  std::vector<Pose2d> p;
  for (size_t k = 0; k < g.size(); ++k) {
    p.push_back(Pose2d{g[k].x, g[k].y, Rotation2d{g[k].heading}});
  }
  b.SgmtInitialGuessPoints(i, p);
  return b;
}
Builder set_drivetrain(Shim& s, const trajopt::rsffi::SwerveDrivetrain& d) {
  Builder b = spec::inner(s);
  trajopt::SwerveDrivetrain z;
  z.mass = d.mass;
  z.moi = d.moi;
  for (size_t k = 0; k < d.modules.size(); ++k) {
    trajopt::SwerveModule m;
    m.translation = Translation2d{d.modules[k].x, d.modules[k].y};
    m.wheelRadius = d.modules[k].wheel_radius;
    m.wheelMaxAngularVelocity = d.modules[k].wheel_max_angular_velocity;
    m.wheelMaxTorque = d.modules[k].wheel_max_torque;
    z.modules.push_back(m);
  }
  b.SetDrivetrain(z);
  return b;
}
Builder set_control_interval_counts(Shim& s, const RCounts& n) {
  Builder b = spec::inner(s);
  Counts c;
  for (size_t k = 0; k < n.size(); ++k) {
    c.push_back(n[k]);
  }
  b.ControlIntervalCounts(std::move(c));
  return b;
}
Builder wpt(Shim& s, size_t i, const Constraint& c) {
  Builder b = spec::inner(s);
  b.WptConstraint(i, c);
  return b;
}
Builder sgmt(Shim& s, size_t i, size_t j, const Constraint& c) {
  Builder b = spec::inner(s);
  b.SgmtConstraint(i, j, c);
  return b;
}
Builder wpt_linear_velocity_direction(Shim& s, size_t i, double a) {
  return wpt(s, i, LinearVelocityDirectionConstraint{a});
}
Builder wpt_linear_velocity_max_magnitude(Shim& s, size_t i, double a) {
  return wpt(s, i, LinearVelocityMaxMagnitudeConstraint{a});
}
Builder wpt_angular_velocity_max_magnitude(Shim& s, size_t i, double a) {
  return wpt(s, i, AngularVelocityMaxMagnitudeConstraint{a});
}
Builder wpt_linear_acceleration_max_magnitude(Shim& s, size_t i, double a) {
  return wpt(s, i, LinearAccelerationMaxMagnitudeConstraint{a});
}
Builder wpt_point_at(Shim& s, size_t i, double x, double y, double tol) {
  return wpt(s, i, PointAtConstraint{Translation2d{x, y}, tol});
}
Builder sgmt_linear_velocity_direction(Shim& s, size_t i, size_t j, double a) {
  return sgmt(s, i, j, LinearVelocityDirectionConstraint{a});
}
Builder sgmt_linear_velocity_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  return sgmt(s, i, j, LinearVelocityMaxMagnitudeConstraint{a});
}
Builder sgmt_angular_velocity_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  return sgmt(s, i, j, AngularVelocityMaxMagnitudeConstraint{a});
}
Builder sgmt_linear_acceleration_max_magnitude(Shim& s, size_t i, size_t j, double a) {
  return sgmt(s, i, j, LinearAccelerationMaxMagnitudeConstraint{a});
}
Builder sgmt_point_at(Shim& s, size_t i, size_t j, double x, double y, double tol) {
  return sgmt(s, i, j, PointAtConstraint{Translation2d{x, y}, tol});
}
Builder sgmt_circle_obstacle(Shim& s, size_t i, size_t j, double x, double y, double r) {
  Builder b = spec::inner(s);
  b.SgmtObstacle(i, j, Obstacle{r, {Translation2d{x, y}}});
  return b;
}
Builder sgmt_polygon_obstacle(Shim& s, size_t i, size_t j, const RReals& x, const RReals& y, double r) {
  Builder b = spec::inner(s);
  std::vector<Translation2d> p;
  for (size_t k = 0; k < x.size(); ++k) {
    p.push_back(Translation2d{x[k], y[k]});
  }
  b.SgmtObstacle(i, j, Obstacle{r, p});
  return b;
}
// A rectangle around the center of the robot, kept 1 cm away from obstacles.
inline Bumpers rectangle(double length, double width) {
  double l = length / 2;
  double w = width / 2;
  return {0.01, {Translation2d{l, w}, Translation2d{-l, w}, Translation2d{-l, -w}, Translation2d{l, -w}}};
}
Waypoints set_bumpers(double length, double width, double x, double y, double r) {
  Builder b;
  b.AddBumpers(rectangle(length, width));
  b.WptObstacle(0, Obstacle{r, {{x, y}}});
  return b.GetPath().waypoints;
}
Waypoints set_bumpers_line(double length, double width, const Translation2d& p, const Translation2d& q, double r) {
  Builder b;
  b.AddBumpers(rectangle(length, width));
  b.WptObstacle(0, Obstacle{r, {p, q}});
  return b.GetPath().waypoints;
}
Builder fresh() { return {}; }
void cancel() { trajopt::GetCancellationFlag() = 1; }
}  // namespace ref
namespace pre {
bool sgmt_polygon_obstacle(Shim& s, size_t i, size_t j, const RReals& x, const RReals& y, double r) {
  return x.size() == y.size();
}
}  // namespace pre
