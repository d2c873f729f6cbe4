// C08: translations are a real vector space with the usual products.
#include "common.hpp"

#define MIXED(N, T, U)                                                                             \
  namespace impl {                                                                                 \
  auto add_##N(T ax, T ay, U bx, U by) { return xy(Translation2<T>{ax, ay} + Translation2<U>{bx, by}); } \
  auto sub_##N(T ax, T ay, U bx, U by) { return xy(Translation2<T>{ax, ay} - Translation2<U>{bx, by}); } \
  auto dot_##N(T ax, T ay, U bx, U by) { return Translation2<T>{ax, ay}.Dot(Translation2<U>{bx, by}); }  \
  auto cross_##N(T ax, T ay, U bx, U by) { return Translation2<T>{ax, ay}.Cross(Translation2<U>{bx, by}); } \
  auto distance_##N(T ax, T ay, U bx, U by) { return Translation2<T>{ax, ay}.Distance(Translation2<U>{bx, by}); } \
  auto scale_##N(T ax, T ay, U k) { return xy(Translation2<T>{ax, ay} * k); }                      \
  auto shrink_##N(T ax, T ay, U k) { return xy(Translation2<T>{ax, ay} / k); }                     \
  auto rotate_##N(T ax, T ay, U c, U s) { return xy(Translation2<T>{ax, ay}.RotateBy(Rotation2<U>{c, s})); } \
  }                                                                                                \
  namespace ref {                                                                                  \
  XY<Sum<T, U>> add_##N(T ax, T ay, U bx, U by) { return {ax + bx, ay + by}; }                     \
  XY<Sum<T, U>> sub_##N(T ax, T ay, U bx, U by) { return {ax - bx, ay - by}; }                     \
  Sum<T, U> dot_##N(T ax, T ay, U bx, U by) { return ax * bx + ay * by; }                          \
  Sum<T, U> cross_##N(T ax, T ay, U bx, U by) { return ax * by - ay * bx; }                        \
  Sum<T, U> distance_##N(T ax, T ay, U bx, U by) {                                                 \
    return sqrt((ax - bx) * (ax - bx) + (ay - by) * (ay - by));                                    \
  }                                                                                                \
  XY<Sum<T, U>> scale_##N(T ax, T ay, U k) { return {k * ax, k * ay}; }                            \
  XY<Sum<T, U>> shrink_##N(T ax, T ay, U k) { return {ax / k, ay / k}; }                           \
  XY<Sum<T, U>> rotate_##N(T ax, T ay, U c, U s) { return {ax * c - ay * s, ax * s + ay * c}; }    \
  }

MIXED(dd, double, double)
MIXED(vd, V, double)
MIXED(dv, double, V)
MIXED(vv, V, V)

// Whole numbers are numbers too.
#define WHOLE(N, T)                                                                                \
  namespace impl {                                                                                 \
  auto scale_##N(T ax, T ay, int k) { return xy(Translation2<T>{ax, ay} * k); }                    \
  auto shrink_##N(T ax, T ay, int k) { return xy(Translation2<T>{ax, ay} / k); }                   \
  }                                                                                                \
  namespace ref {                                                                                  \
  XY<T> scale_##N(T ax, T ay, int k) { return {ax * double(k), ay * double(k)}; }                  \
  XY<T> shrink_##N(T ax, T ay, int k) { return {ax / double(k), ay / double(k)}; }                 \
  }

WHOLE(di, double)
WHOLE(vi, V)

#define SINGLE(N, T)                                                                               \
  namespace impl {                                                                                 \
  auto neg_##N(T x, T y) { return xy(-Translation2<T>{x, y}); }                                    \
  auto sqnorm_##N(T x, T y) { return Translation2<T>{x, y}.SquaredNorm(); }                        \
  auto norm_##N(T x, T y) { return Translation2<T>{x, y}.Norm(); }                                 \
  auto polar_##N(T d, T c, T s) { return xy(Translation2<T>{d, Rotation2<T>{c, s}}); }             \
  auto angle_##N(T x, T y) { return Translation2<T>{x, y}.Angle().Radians(); }                     \
  auto make_##N(T x, T y) { return xy(Translation2<T>{x, y}); }                                    \
  XY<T> unpack_##N(T x, T y) {                                                                     \
    Translation2<T> t{x, y};                                                                       \
    const auto& [a, b] = t;                                                                        \
    return {a, b};                                                                                 \
  }                                                                                                \
  auto zero_##N() { return xy(Translation2<T>{}); }                                                \
  }                                                                                                \
  namespace ref {                                                                                  \
  XY<T> neg_##N(T x, T y) { return {-x, -y}; }                                                     \
  T sqnorm_##N(T x, T y) { return x * x + y * y; }                                                 \
  T norm_##N(T x, T y) { return sqrt(x * x + y * y); }                                             \
  XY<T> polar_##N(T d, T c, T s) { return {d * c, d * s}; }                                        \
  T angle_##N(T x, T y) { return atan2(y, x); }                                                    \
  XY<T> make_##N(T x, T y) { return {x, y}; }                                                      \
  XY<T> unpack_##N(T x, T y) { return {x, y}; }                                                    \
  XY<T> zero_##N() { return {T(0.0), T(0.0)}; }                                                    \
  }

SINGLE(d, double)
SINGLE(v, V)

// A translation equation handed to the solver means: both components agree.
#define EQUATION(N, T, U)                                                                          \
  namespace impl {                                                                                 \
  void equal_##N(Problem& p, T ax, T ay, U bx, U by) {                                             \
    p.SubjectTo(Translation2<T>{ax, ay} == Translation2<U>{bx, by});                               \
  }                                                                                                \
  }                                                                                                \
  namespace ref {                                                                                  \
  void equal_##N(Problem& p, T ax, T ay, U bx, U by) {                                             \
    p.SubjectTo(ax == bx);                                                                         \
    p.SubjectTo(ay == by);                                                                         \
  }                                                                                                \
  }
EQUATION(vv, V, V)
EQUATION(vd, V, double)
EQUATION(dv, double, V)
