// C09: constant rotations and poses convert to autodiff ones (explicitly).
#include "common.hpp"
namespace impl {
XY<V> coerce_rotation(double c, double s) { return cs(Rotation2v{Rotation2d{c, s}}); }
Pos<V> coerce_pose(double x, double y, double c, double s) { return pos(Pose2v{Pose2d{x, y, Rotation2d{c, s}}}); }
}
namespace ref {
XY<V> coerce_rotation(double c, double s) { return {V(c), V(s)}; }
Pos<V> coerce_pose(double x, double y, double c, double s) { return {V(x), V(y), V(c), V(s)}; }
}
