// C07: pose, translation, heading-target and velocity-direction constraints.
#include "apply.hpp"

namespace impl {
void pose(double tx, double ty, double th, SAMPLE) { apply(PoseEqualityConstraint{tx, ty, th}, SAMPLE_ARGS); }
void translation(double tx, double ty, SAMPLE) { apply(TranslationEqualityConstraint{tx, ty}, SAMPLE_ARGS); }
void point_at(double fx, double fy, double tol, SAMPLE) {
  apply(PointAtConstraint{Translation2d{fx, fy}, tol}, SAMPLE_ARGS);
}
void direction(double angle, SAMPLE) { apply(LinearVelocityDirectionConstraint{angle}, SAMPLE_ARGS); }
}  // namespace impl

namespace ref {
void pose(double tx, double ty, double th, SAMPLE) {
  p.SubjectTo(x == tx);
  p.SubjectTo(y == ty);
  p.SubjectTo(c * std::sin(th) - s * std::cos(th) == 0.0);
  p.SubjectTo(c * c + s * s == 1.0);
}
void translation(double tx, double ty, SAMPLE) {
  p.SubjectTo(x == tx);
  p.SubjectTo(y == ty);
}
// heading . (target - position) >= cos(tol) |target - position|
void point_at(double fx, double fy, double tol, SAMPLE) {
  V ex = fx - x, ey = fy - y;
  p.SubjectTo(c * ex + s * ey >= std::cos(tol) * sqrt(ex * ex + ey * ey));
}
// (v . u)^2 == |v|^2
void direction(double angle, SAMPLE) {
  V d = vx * std::cos(angle) + vy * std::sin(angle);
  p.SubjectTo(d * d == vx * vx + vy * vy);
}
}  // namespace ref

namespace pre {
bool point_at(double fx, double fy, double tol, SAMPLE) { return tol >= 0; }
}  // namespace pre
