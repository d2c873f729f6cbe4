// C17: waypoint constraints hold at their waypoint's sample, segment constraints
// at every sample of their segment.
#include "gen.hpp"
namespace impl {
SwerveSolution waypoints(SwervePathBuilder b) { return generate(b); }
SwerveSolution segments(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution waypoints(SwervePathBuilder b) {
  PROBLEM;
  waypoint_constraints(p, q, n, wpts);
  return report(q, n);
}
SwerveSolution segments(SwervePathBuilder b) {
  PROBLEM;
  segment_constraints(p, q, n, wpts);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool waypoints(SwervePathBuilder b) { return sound(b); }
bool segments(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
