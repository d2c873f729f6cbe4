// C09: rotations compose like angles; poses rotate both of their parts.
#include "common.hpp"

#define MIXED(N, T, U)                                                                             \
  namespace impl {                                                                                 \
  auto rotate_##N(T ac, T as, U bc, U bs) { return cs(Rotation2<T>{ac, as}.RotateBy(Rotation2<U>{bc, bs})); } \
  }                                                                                                \
  namespace ref {                                                                                  \
  XY<Sum<T, U>> rotate_##N(T ac, T as, U bc, U bs) { return {ac * bc - as * bs, ac * bs + as * bc}; } \
  }
MIXED(dd, double, double)
MIXED(vd, V, double)
MIXED(dv, double, V)
MIXED(vv, V, V)

#define SINGLE(N, T)                                                                               \
  namespace impl {                                                                                 \
  auto add_##N(T ac, T as, T bc, T bs) { return cs(Rotation2<T>{ac, as} + Rotation2<T>{bc, bs}); } \
  auto sub_##N(T ac, T as, T bc, T bs) { return cs(Rotation2<T>{ac, as} - Rotation2<T>{bc, bs}); } \
  auto neg_##N(T ac, T as) { return cs(-Rotation2<T>{ac, as}); }                                   \
  auto of_angle_##N(T a) { return cs(Rotation2<T>{a}); }                                           \
  auto sum_of_angles_##N(T a, T b) { return cs(Rotation2<T>{a} + Rotation2<T>{b}); }               \
  auto difference_of_angles_##N(T a, T b) { return cs(Rotation2<T>{a} - Rotation2<T>{b}); }        \
  auto make_##N(T c, T s) { return cs(Rotation2<T>{c, s}); }                                       \
  auto radians_##N(T c, T s) { return Rotation2<T>{c, s}.Radians(); }                              \
  auto degrees_##N(T c, T s) { return Rotation2<T>{c, s}.Degrees(); }                              \
  auto zero_##N() { return cs(Rotation2<T>{}); }                                                   \
  auto pose_##N(T x, T y, T c, T s) { return pos(Pose2<T>{x, y, Rotation2<T>{c, s}}); }            \
  auto pose_parts_##N(T x, T y, T c, T s) {                                                        \
    return pos(Pose2<T>{Translation2<T>{x, y}, Rotation2<T>{c, s}});                               \
  }                                                                                                \
  XY<T> pose_xy_##N(T x, T y, T c, T s) {                                                          \
    Pose2<T> p{x, y, Rotation2<T>{c, s}};                                                          \
    return {p.X(), p.Y()};                                                                         \
  }                                                                                                \
  auto pose_zero_##N() { return pos(Pose2<T>{}); }                                                 \
  auto pose_rotate_##N(T x, T y, T c, T s, T rc, T rs) {                                           \
    return pos(Pose2<T>{x, y, Rotation2<T>{c, s}}.RotateBy(Rotation2<T>{rc, rs}));                 \
  }                                                                                                \
  }                                                                                                \
  namespace ref {                                                                                  \
  XY<T> add_##N(T ac, T as, T bc, T bs) { return {ac * bc - as * bs, ac * bs + as * bc}; }         \
  XY<T> sub_##N(T ac, T as, T bc, T bs) { return {ac * bc + as * bs, as * bc - ac * bs}; }         \
  XY<T> neg_##N(T ac, T as) { return {ac, -as}; }                                                  \
  XY<T> of_angle_##N(T a) { return {cos(a), sin(a)}; }                                             \
  XY<T> sum_of_angles_##N(T a, T b) {                                                              \
    return {cos(a) * cos(b) - sin(a) * sin(b), cos(a) * sin(b) + sin(a) * cos(b)};                 \
  }                                                                                                \
  XY<T> difference_of_angles_##N(T a, T b) {                                                       \
    return {cos(a) * cos(b) + sin(a) * sin(b), sin(a) * cos(b) - cos(a) * sin(b)};                 \
  }                                                                                                \
  XY<T> make_##N(T c, T s) { return {c, s}; }                                                      \
  T radians_##N(T c, T s) { return atan2(s, c); }                                                  \
  T degrees_##N(T c, T s) { return atan2(s, c) * (180.0 / std::numbers::pi); }                     \
  XY<T> zero_##N() { return {T(1.0), T(0.0)}; }                                                    \
  Pos<T> pose_##N(T x, T y, T c, T s) { return {x, y, c, s}; }                                     \
  Pos<T> pose_parts_##N(T x, T y, T c, T s) { return {x, y, c, s}; }                               \
  XY<T> pose_xy_##N(T x, T y, T c, T s) { return {x, y}; }                                         \
  Pos<T> pose_zero_##N() { return {T(0.0), T(0.0), T(1.0), T(0.0)}; }                              \
  Pos<T> pose_rotate_##N(T x, T y, T c, T s, T rc, T rs) {                                         \
    return {x * rc - y * rs, x * rs + y * rc, c * rc - s * rs, s * rc + c * rs};                   \
  }                                                                                                \
  }
SINGLE(d, double)
SINGLE(v, V)

// A rotation equation handed to the solver: the vectors are parallel and every
// side made of decision variables is a unit vector.
namespace impl {
void equal_vv(Problem& p, V ac, V as, V bc, V bs) { p.SubjectTo(Rotation2v{ac, as} == Rotation2v{bc, bs}); }
void equal_vd(Problem& p, V ac, V as, double bc, double bs) { p.SubjectTo(Rotation2v{ac, as} == Rotation2d{bc, bs}); }
void equal_dv(Problem& p, double ac, double as, V bc, V bs) { p.SubjectTo(Rotation2d{ac, as} == Rotation2v{bc, bs}); }
void pose_equal_vv(Problem& p, V ax, V ay, V ac, V as, V bx, V by, V bc, V bs) {
  p.SubjectTo(Pose2v{ax, ay, Rotation2v{ac, as}} == Pose2v{bx, by, Rotation2v{bc, bs}});
}
void pose_equal_vd(Problem& p, V ax, V ay, V ac, V as, double bx, double by, double bc, double bs) {
  p.SubjectTo(Pose2v{ax, ay, Rotation2v{ac, as}} == Pose2d{bx, by, Rotation2d{bc, bs}});
}
void pose_equal_dv(Problem& p, double ax, double ay, double ac, double as, V bx, V by, V bc, V bs) {
  p.SubjectTo(Pose2d{ax, ay, Rotation2d{ac, as}} == Pose2v{bx, by, Rotation2v{bc, bs}});
}
}  // namespace impl
namespace ref {
void equal_vv(Problem& p, V ac, V as, V bc, V bs) {
  p.SubjectTo(ac * bs - as * bc == 0.0);
  p.SubjectTo(ac * ac + as * as == 1.0);
  p.SubjectTo(bc * bc + bs * bs == 1.0);
}
void equal_vd(Problem& p, V ac, V as, double bc, double bs) {
  p.SubjectTo(ac * bs - as * bc == 0.0);
  p.SubjectTo(ac * ac + as * as == 1.0);
}
void equal_dv(Problem& p, double ac, double as, V bc, V bs) {
  p.SubjectTo(ac * bs - as * bc == 0.0);
  p.SubjectTo(bc * bc + bs * bs == 1.0);
}
void pose_equal_vv(Problem& p, V ax, V ay, V ac, V as, V bx, V by, V bc, V bs) {
  p.SubjectTo(ax == bx);
  p.SubjectTo(ay == by);
  equal_vv(p, ac, as, bc, bs);
}
void pose_equal_vd(Problem& p, V ax, V ay, V ac, V as, double bx, double by, double bc, double bs) {
  p.SubjectTo(ax == bx);
  p.SubjectTo(ay == by);
  equal_vd(p, ac, as, bc, bs);
}
void pose_equal_dv(Problem& p, double ax, double ay, double ac, double as, V bx, V by, V bc, V bs) {
  p.SubjectTo(ax == bx);
  p.SubjectTo(ay == by);
  equal_dv(p, ac, as, bc, bs);
}
}  // namespace ref
