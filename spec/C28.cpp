// C28: requests within the documented ranges are accepted by builds with
// assertions too: no assertion of the library fails for them.
#include "ffi.hpp"
#include "apply.hpp"
#include "trajopt/constraint/LinePointConstraint.hpp"
#include "trajopt/constraint/PointLineConstraint.hpp"
#include "trajopt/constraint/PointPointConstraint.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
using RReals = rust::Vec<double>;
using RPoses = rust::Vec<trajopt::rsffi::Pose2d>;
using RCounts = rust::Vec<size_t>;
// Every entry gives: a name, the parameters, which arguments are documented as valid, and what is asked for.
#define ENTRY(NAME, PARAMS, VALID, ...)           \
  namespace impl { void NAME PARAMS { __VA_ARGS__; } } \
  namespace ref { void NAME PARAMS {} }           \
  namespace pre { bool NAME PARAMS { return VALID; } }
// constraints
ENTRY(linear_velocity, (double m, SAMPLE), m >= 0, apply(LinearVelocityMaxMagnitudeConstraint{m}, SAMPLE_ARGS))
ENTRY(linear_acceleration, (double m, SAMPLE), m >= 0, apply(LinearAccelerationMaxMagnitudeConstraint{m}, SAMPLE_ARGS))
ENTRY(angular_velocity, (double m, SAMPLE), m >= 0, apply(AngularVelocityMaxMagnitudeConstraint{m}, SAMPLE_ARGS))
ENTRY(direction, (double m, SAMPLE), true, apply(LinearVelocityDirectionConstraint{m}, SAMPLE_ARGS))
ENTRY(point_at, (double fx, double fy, double t, SAMPLE), t >= 0, apply(PointAtConstraint{Translation2d{fx, fy}, t}, SAMPLE_ARGS))
ENTRY(pose, (double fx, double fy, double t, SAMPLE), true, apply(PoseEqualityConstraint{fx, fy, t}, SAMPLE_ARGS))
ENTRY(translation, (double fx, double fy, SAMPLE), true, apply(TranslationEqualityConstraint{fx, fy}, SAMPLE_ARGS))
ENTRY(point_point, (double rx, double ry, double fx, double fy, double d, SAMPLE), d >= 0,
      apply(PointPointConstraint{Translation2d{rx, ry}, Translation2d{fx, fy}, d}, SAMPLE_ARGS))
ENTRY(line_point, (double bx, double by, double ex, double ey, double fx, double fy, double d, SAMPLE), d >= 0,
      apply(LinePointConstraint{Translation2d{bx, by}, Translation2d{ex, ey}, Translation2d{fx, fy}, d}, SAMPLE_ARGS))
ENTRY(point_line, (double rx, double ry, double bx, double by, double ex, double ey, double d, SAMPLE), d >= 0,
      apply(PointLineConstraint{Translation2d{rx, ry}, Translation2d{bx, by}, Translation2d{ex, ey}, d}, SAMPLE_ARGS))
// the path builder
ENTRY(b_pose, (SwervePathBuilder& b, size_t i, double x, double y, double h), true, b.PoseWpt(i, x, y, h))
ENTRY(b_translation, (SwervePathBuilder& b, size_t i, double x, double y, double h), true, b.TranslationWpt(i, x, y, h))
ENTRY(b_guess, (SwervePathBuilder& b, size_t i, const Pose2d& q), true, b.WptInitialGuessPoint(i, q))
ENTRY(b_guesses, (SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& q), true, b.SgmtInitialGuessPoints(i, q))
ENTRY(b_wpt, (SwervePathBuilder& b, size_t i, const Constraint& c), true, b.WptConstraint(i, c))
ENTRY(b_sgmt, (SwervePathBuilder& b, size_t i, size_t j, const Constraint& c), i < j, b.SgmtConstraint(i, j, c))
ENTRY(b_counts, (SwervePathBuilder& b, Counts n), true, b.ControlIntervalCounts(std::move(n)))
ENTRY(b_drivetrain, (SwervePathBuilder& b, const SwerveDrivetrain& d), true, b.SetDrivetrain(d))
ENTRY(b_bumpers, (SwervePathBuilder& b, Bumpers z), true, b.AddBumpers(std::move(z)))
ENTRY(b_wpt_obstacle, (SwervePathBuilder& b, Bumpers z, size_t i, const Obstacle& o), true,
      b.AddBumpers(std::move(z)); b.WptObstacle(i, o))
ENTRY(b_sgmt_obstacle, (SwervePathBuilder& b, Bumpers z, size_t i, size_t j, const Obstacle& o), i < j,
      b.AddBumpers(std::move(z)); b.SgmtObstacle(i, j, o))
ENTRY(b_callback, (SwervePathBuilder& b, const std::function<void(SwerveSolution&, int64_t)>& f), true,
      b.AddIntermediateCallback(f))
// the bindings
ENTRY(f_drivetrain, (Shim& s, const trajopt::rsffi::SwerveDrivetrain& d), true, s.set_drivetrain(d))
ENTRY(f_counts, (Shim& s, const RCounts& n), true, s.set_control_interval_counts(n))
ENTRY(f_bumpers, (Shim& s, double l, double w), l >= 0 && w >= 0, s.set_bumpers(l, w))
ENTRY(f_pose, (Shim& s, size_t i, double x, double y, double h), true, s.pose_wpt(i, x, y, h))
ENTRY(f_translation, (Shim& s, size_t i, double x, double y, double h), true, s.translation_wpt(i, x, y, h))
ENTRY(f_empty, (Shim& s, size_t i, double x, double y, double h), true, s.empty_wpt(i, x, y, h))
ENTRY(f_guesses, (Shim& s, size_t i, const RPoses& g), true, s.sgmt_initial_guess_points(i, g))
ENTRY(f_wpt, (Shim& s, size_t i, double x, double y, double m), m >= 0, s.wpt_linear_velocity_direction(i, x);
      s.wpt_linear_velocity_max_magnitude(i, m); s.wpt_angular_velocity_max_magnitude(i, m);
      s.wpt_linear_acceleration_max_magnitude(i, m); s.wpt_point_at(i, x, y, m))
ENTRY(f_sgmt, (Shim& s, size_t i, size_t j, double x, double y, double m), m >= 0 && i < j,
      s.sgmt_linear_velocity_direction(i, j, x); s.sgmt_linear_velocity_max_magnitude(i, j, m);
      s.sgmt_angular_velocity_max_magnitude(i, j, m); s.sgmt_linear_acceleration_max_magnitude(i, j, m);
      s.sgmt_point_at(i, j, x, y, m))
ENTRY(f_circle, (Shim& s, double l, double w, size_t i, size_t j, double x, double y, double r), r >= 0 && i < j,
      s.set_bumpers(l, w); s.sgmt_circle_obstacle(i, j, x, y, r))
ENTRY(f_polygon, (Shim& s, double l, double w, size_t i, size_t j, const RReals& x, const RReals& y, double r), r >= 0 && i < j,
      s.set_bumpers(l, w); s.sgmt_polygon_obstacle(i, j, x, y, r))
// trajectories
ENTRY(trajectory, (const SwerveSolution& z), true, HolonomicTrajectory t{z})
ENTRY(guessing, (SwervePathBuilder& b), true, b.CalculateInitialGuess())
