// C05: obstacle constraints keep the squared distance between the two features,
// measured on the field with the robot feature moved by the pose, at or above
// the squared minimum distance.
#include "apply.hpp"

namespace impl {
void point_point(double rx, double ry, double fx, double fy, double d, SAMPLE) {
  apply(PointPointConstraint{Translation2d{rx, ry}, Translation2d{fx, fy}, d}, SAMPLE_ARGS);
}
void line_point(double ax_, double ay_, double bx_, double by_, double fx, double fy, double d, SAMPLE) {
  apply(LinePointConstraint{Translation2d{ax_, ay_}, Translation2d{bx_, by_}, Translation2d{fx, fy}, d}, SAMPLE_ARGS);
}
void point_line(double rx, double ry, double ax_, double ay_, double bx_, double by_, double d, SAMPLE) {
  apply(PointLineConstraint{Translation2d{rx, ry}, Translation2d{ax_, ay_}, Translation2d{bx_, by_}, d}, SAMPLE_ARGS);
}
}  // namespace impl

namespace ref {
V clamp01(V t) {
  V u = 0.5 * (t + 1.0 - abs(t - 1.0));  // min(t, 1)
  return 0.5 * (u + abs(u));             // max(u, 0)
}
V dist2(V ax, V ay, V bx, V by, V px, V py) {
  V lx = bx - ax, ly = by - ay;
  V t = clamp01(((px - ax) * lx + (py - ay) * ly) / (lx * lx + ly * ly));
  V ex = ax + t * lx - px, ey = ay + t * ly - py;
  return ex * ex + ey * ey;
}
void point_point(double rx, double ry, double fx, double fy, double d, SAMPLE) {
  V ex = x + (rx * c - ry * s) - fx;
  V ey = y + (rx * s + ry * c) - fy;
  p.SubjectTo(ex * ex + ey * ey >= d * d);
}
void line_point(double ax_, double ay_, double bx_, double by_, double fx, double fy, double d, SAMPLE) {
  p.SubjectTo(dist2(x + (ax_ * c - ay_ * s), y + (ax_ * s + ay_ * c), x + (bx_ * c - by_ * s),
                    y + (bx_ * s + by_ * c), V(fx), V(fy)) >= d * d);
}
void point_line(double rx, double ry, double ax_, double ay_, double bx_, double by_, double d, SAMPLE) {
  p.SubjectTo(dist2(V(ax_), V(ay_), V(bx_), V(by_), x + (rx * c - ry * s), y + (rx * s + ry * c)) >= d * d);
}
}  // namespace ref

namespace pre {
bool point_point(double rx, double ry, double fx, double fy, double d, SAMPLE) { return d >= 0; }
bool line_point(double ax_, double ay_, double bx_, double by_, double fx, double fy, double d, SAMPLE) {
  return d >= 0 && (ax_ != bx_ || ay_ != by_);
}
bool point_line(double rx, double ry, double ax_, double ay_, double bx_, double by_, double d, SAMPLE) {
  return d >= 0 && (ax_ != bx_ || ay_ != by_);
}
}  // namespace pre
