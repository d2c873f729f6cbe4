// C13: the generator minimises the total time over non-negative time steps that
// are short enough for the size of the robot.
#include "gen.hpp"
namespace impl {
SwerveSolution cost(SwervePathBuilder b) { return generate(b); }
SwerveSolution time_step_bounds(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution cost(SwervePathBuilder b) {
  PROBLEM;
  minimize_time(p, q, n);
  return report(q, n);
}
SwerveSolution time_step_bounds(SwervePathBuilder b) {
  PROBLEM;
  time_steps(p, q, n, d);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool cost(SwervePathBuilder b) { return sound(b); }
bool time_step_bounds(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
