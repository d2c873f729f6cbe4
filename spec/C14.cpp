// C14: consecutive samples follow from each other by implicit Euler steps.
#include "gen.hpp"
namespace impl {
SwerveSolution steps(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution steps(SwervePathBuilder b) {
  PROBLEM;
  motion(p, q, n);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool steps(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
