// C16: no module turns faster or pushes harder than it can.
#include "gen.hpp"
namespace impl {
SwerveSolution speed(SwervePathBuilder b) { return generate(b); }
SwerveSolution force(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution speed(SwervePathBuilder b) {
  PROBLEM;
  module_speed(p, q, n, d);
  return report(q, n);
}
SwerveSolution force(SwervePathBuilder b) {
  PROBLEM;
  module_force(p, q, n, d);
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool speed(SwervePathBuilder b) { return sound(b); }
bool force(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
