// C15: module forces accelerate and turn the robot by Newton's laws.
#include "gen.hpp"
namespace impl {
SwerveSolution newton(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution newton(SwervePathBuilder b) {
  PROBLEM;
  dynamics(p, q, n, d);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool newton(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
