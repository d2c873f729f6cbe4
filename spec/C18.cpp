// C18: nothing else constrains the trajectory.
#include "gen.hpp"
namespace impl {
SwerveSolution whole(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution whole(SwervePathBuilder b) {
  PROBLEM;
  minimize_time(p, q, n);
  time_steps(p, q, n, d);
  motion(p, q, n);
  dynamics(p, q, n, d);
  module_speed(p, q, n, d);
  module_force(p, q, n, d);
  waypoint_constraints(p, q, n, wpts);
  segment_constraints(p, q, n, wpts);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool whole(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
