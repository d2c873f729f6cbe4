// C29: no operation reads or writes an element that is not there.
#include "gen.hpp"
#include "ffi.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
using RReals = rust::Vec<double>;
using RPoses = rust::Vec<trajopt::rsffi::Pose2d>;
using RCounts = rust::Vec<size_t>;
inline bool lockstep(SwervePathBuilder& b) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size();
}
inline bool whole(SwervePathBuilder& b) {
  return spec::guess_points(b).size() == b.GetPath().waypoints.size() &&
         b.GetPath().waypoints.size() == b.GetControlIntervalCounts().size() + 1;
}
// The initial guess has the sizes C12 gives it.
inline bool guessed(const SwervePathBuilder& b) {
  size_t total = 1;
  for (size_t k = 0; k < b.GetControlIntervalCounts().size(); ++k) {
    total += b.GetControlIntervalCounts()[k];
  }
  const auto z = b.CalculateInitialGuess();
  return z.dt.size() == total && z.x.size() == total && z.y.size() == total && z.thetacos.size() == total &&
         z.thetasin.size() == total;
}
#define ENTRY(NAME, PARAMS, VALID, ...)           \
  namespace impl { void NAME PARAMS { __VA_ARGS__; } } \
  namespace ref { void NAME PARAMS {} }           \
  namespace pre { bool NAME PARAMS { return VALID; } }
ENTRY(pose, (SwervePathBuilder& b, size_t i, double x, double y, double h), lockstep(b), b.PoseWpt(i, x, y, h))
ENTRY(translation, (SwervePathBuilder& b, size_t i, double x, double y, double h), lockstep(b), b.TranslationWpt(i, x, y, h))
ENTRY(wpt_guess, (SwervePathBuilder& b, size_t i, const Pose2d& q), lockstep(b), b.WptInitialGuessPoint(i, q))
ENTRY(sgmt_guess, (SwervePathBuilder& b, size_t i, const std::vector<Pose2d>& q), lockstep(b), b.SgmtInitialGuessPoints(i, q))
ENTRY(wpt, (SwervePathBuilder& b, size_t i, const Constraint& c), lockstep(b), b.WptConstraint(i, c))
ENTRY(sgmt, (SwervePathBuilder& b, size_t i, size_t j, const Constraint& c), lockstep(b) && i < j, b.SgmtConstraint(i, j, c))
ENTRY(wpt_obstacle, (SwervePathBuilder& b, const Bumpers& z, size_t i, const Obstacle& o),
      lockstep(b) && z.points.size() > 0 && o.points.size() > 0, b.AddBumpers(Bumpers{z}); b.WptObstacle(i, o))
ENTRY(sgmt_obstacle, (SwervePathBuilder& b, const Bumpers& z, size_t i, size_t j, const Obstacle& o),
      lockstep(b) && i < j && z.points.size() > 0 && o.points.size() > 0, b.AddBumpers(Bumpers{z}); b.SgmtObstacle(i, j, o))
ENTRY(guessing, (const SwervePathBuilder& b), whole(const_cast<SwervePathBuilder&>(b)), b.CalculateInitialGuess())
ENTRY(constructing, (SwervePathBuilder b), whole(b) && guessed(b), SwerveTrajectoryGenerator g{b, 0})
ENTRY(generating, (SwervePathBuilder b), whole(b) && guessed(b), generate(b))
ENTRY(trajectory, (const SwerveSolution& z),
      z.y.size() == z.x.size() && z.thetacos.size() == z.x.size() && z.thetasin.size() == z.x.size() &&
          z.vx.size() == z.x.size() && z.vy.size() == z.x.size() && z.omega.size() == z.x.size() &&
          z.ax.size() == z.x.size() && z.ay.size() == z.x.size() && z.alpha.size() == z.x.size() &&
          z.moduleFX.size() == z.x.size() && z.moduleFY.size() == z.x.size() && z.x.size() == z.dt.size() + 1,
      HolonomicTrajectory t{z})
ENTRY(f_polygon, (Shim& s, size_t i, size_t j, const RReals& x, const RReals& y, double r),
      i < j && x.size() > 0 && x.size() == y.size(),
      s.sgmt_polygon_obstacle(i, j, x, y, r))
ENTRY(f_circle, (Shim& s, size_t i, size_t j, double x, double y, double r), i < j, s.sgmt_circle_obstacle(i, j, x, y, r))
ENTRY(f_counts, (Shim& s, const RCounts& n), true, s.set_control_interval_counts(n))
ENTRY(f_drivetrain, (Shim& s, const trajopt::rsffi::SwerveDrivetrain& d), true, s.set_drivetrain(d))
ENTRY(f_guesses, (Shim& s, size_t i, const RPoses& g), lockstep(spec::inner(s)), s.sgmt_initial_guess_points(i, g))
ENTRY(f_generate, (const Shim& s, bool d, int64_t h), whole(spec::inner(s)) && guessed(spec::inner(s)), try { s.generate(d, h); } catch (const std::exception&) {})
