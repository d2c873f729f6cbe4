// C06: magnitude limits bound the magnitude of the named quantity, and a limit
// of zero pins it.
#include "apply.hpp"

namespace impl {
void linear_velocity(double m, SAMPLE) { apply(LinearVelocityMaxMagnitudeConstraint{m}, SAMPLE_ARGS); }
void linear_acceleration(double m, SAMPLE) { apply(LinearAccelerationMaxMagnitudeConstraint{m}, SAMPLE_ARGS); }
void angular_velocity(double m, SAMPLE) { apply(AngularVelocityMaxMagnitudeConstraint{m}, SAMPLE_ARGS); }
void linear_velocity_zero(SAMPLE) { apply(LinearVelocityMaxMagnitudeConstraint{0.0}, SAMPLE_ARGS); }
void linear_acceleration_zero(SAMPLE) { apply(LinearAccelerationMaxMagnitudeConstraint{0.0}, SAMPLE_ARGS); }
void angular_velocity_zero(SAMPLE) { apply(AngularVelocityMaxMagnitudeConstraint{0.0}, SAMPLE_ARGS); }
}  // namespace impl

namespace ref {
void linear_velocity(double m, SAMPLE) { p.SubjectTo(vx * vx + vy * vy <= m * m); }
void linear_acceleration(double m, SAMPLE) { p.SubjectTo(ax * ax + ay * ay <= m * m); }
void angular_velocity(double m, SAMPLE) {
  p.SubjectTo(w <= m);
  p.SubjectTo(w >= -m);
}
void linear_velocity_zero(SAMPLE) {
  p.SubjectTo(vx == 0.0);
  p.SubjectTo(vy == 0.0);
}
void linear_acceleration_zero(SAMPLE) {
  p.SubjectTo(ax == 0.0);
  p.SubjectTo(ay == 0.0);
}
void angular_velocity_zero(SAMPLE) { p.SubjectTo(w == 0.0); }
}  // namespace ref

namespace pre {
bool linear_velocity(double m, SAMPLE) { return m > 0; }
bool linear_acceleration(double m, SAMPLE) { return m > 0; }
bool angular_velocity(double m, SAMPLE) { return m > 0; }
}  // namespace pre
