// C04: an obstacle keeps every robot edge away from every obstacle corner and
// every robot corner away from every obstacle edge, for all bumpers registered,
// at the sum of the two safety distances. Polygons are closed.
#include "builder.hpp"
#include "trajopt/constraint/LinePointConstraint.hpp"
#include "trajopt/constraint/PointLineConstraint.hpp"
#include "trajopt/constraint/PointPointConstraint.hpp"
using Bumps = std::vector<Bumpers>;
using Reals = std::vector<double>;
namespace impl {
inline SwervePathBuilder with(const Bumps& z) {
  SwervePathBuilder b;
  for (const auto& k : z) {
    b.AddBumpers(Bumpers{k});
  }
  return b;
}
Waypoints at_waypoint(const Bumps& z, size_t i, const Obstacle& o) {
  SwervePathBuilder b = with(z);
  b.WptObstacle(i, o);
  return b.GetPath().waypoints;
}
Waypoints along_segment(const Bumps& z, size_t i, size_t j, const Obstacle& o) {
  SwervePathBuilder b = with(z);
  b.SgmtObstacle(i, j, o);
  return b.GetPath().waypoints;
}
// The same with the numbers of corners spelled out, on a builder that already
// has constraints. Used when an obstacle is not built from the public
// single-constraint operations.
Bumpers shape(size_t n, double d, const Reals& x, const Reals& y) {
  Bumpers z{d, {}};
  for (size_t k = 0; k < n; ++k) {
    z.points.push_back(Translation2d{x[k], y[k]});
  }
  return z;
}
#define SIZED(NZ, NO)                                                                                        \
  Waypoints sized_##NZ##_##NO(const Constraint& c, double dz, const Reals& zx, const Reals& zy, double d,     \
                              const Reals& ox, const Reals& oy) {                                             \
    SwervePathBuilder b;                                                                                      \
    b.WptConstraint(3, c);                                                                                    \
    b.AddBumpers(shape(NZ, dz, zx, zy));                                                                      \
    b.AddBumpers(shape(1, d, oy, zx));                                                                        \
    b.WptObstacle(0, shape(NO, d, ox, oy));                                                                   \
    b.SgmtObstacle(1, 2, shape(NO, d, ox, oy));                                                               \
    return b.GetPath().waypoints;                                                                             \
  }
SIZED(1, 1) SIZED(1, 2) SIZED(1, 3) SIZED(2, 1) SIZED(2, 2) SIZED(3, 1) SIZED(3, 2) SIZED(3, 3) SIZED(4, 4)
#undef SIZED
}  // namespace impl
namespace ref {
// Every separation constraint between one set of bumpers and one obstacle.
template <typename F>
void separate(const Bumpers& z, const Obstacle& o, F put) {
  size_t nz = z.points.size();
  size_t no = o.points.size();
  double d = z.safetyDistance + o.safetyDistance;
  if (no == 1) {
    for (size_t a = 0; a < nz; ++a) {
      put(Constraint{PointPointConstraint{z.points[a], o.points[0], d}});
    }
  } else {
    for (size_t a = 0; a < nz; ++a) {
      for (size_t e = 0; e < (no > 2 ? no : no - 1); ++e) {
        put(Constraint{PointLineConstraint{z.points[a], o.points[e], o.points[e + 1 < no ? e + 1 : 0], d}});
      }
    }
  }
  if (nz > 1) {
    for (size_t q = 0; q < no; ++q) {
      for (size_t e = 0; e < (nz > 2 ? nz : nz - 1); ++e) {
        put(Constraint{LinePointConstraint{z.points[e], z.points[e + 1 < nz ? e + 1 : 0], o.points[q], d}});
      }
    }
  }
}
Waypoints at_waypoint(const Bumps& z, size_t i, const Obstacle& o) {
  SwervePathBuilder b;
  for (size_t k = 0; k < z.size(); ++k) {
    separate(z[k], o, [&](const Constraint& c) { b.WptConstraint(i, c); });
  }
  return b.GetPath().waypoints;
}
Waypoints along_segment(const Bumps& z, size_t i, size_t j, const Obstacle& o) {
  SwervePathBuilder b;
  for (size_t k = 0; k < z.size(); ++k) {
    separate(z[k], o, [&](const Constraint& c) { b.SgmtConstraint(i, j, c); });
  }
  return b.GetPath().waypoints;
}
#define SIZED(NZ, NO)                                                                                        \
  Waypoints sized_##NZ##_##NO(const Constraint& c, double dz, const Reals& zx, const Reals& zy, double d,     \
                              const Reals& ox, const Reals& oy) {                                             \
    SwervePathBuilder b;                                                                                      \
    b.WptConstraint(3, c);                                                                                    \
    auto wpt = [&](const Constraint& k) { b.WptConstraint(0, k); };                                           \
    auto sgmt = [&](const Constraint& k) { b.SgmtConstraint(1, 2, k); };                                      \
    auto o = impl::shape(NO, d, ox, oy);                                                                      \
    separate(impl::shape(NZ, dz, zx, zy), o, wpt);                                                            \
    separate(impl::shape(1, d, oy, zx), o, wpt);                                                              \
    separate(impl::shape(NZ, dz, zx, zy), o, sgmt);                                                           \
    separate(impl::shape(1, d, oy, zx), o, sgmt);                                                             \
    return b.GetPath().waypoints;                                                                             \
  }
SIZED(1, 1) SIZED(1, 2) SIZED(1, 3) SIZED(2, 1) SIZED(2, 2) SIZED(3, 1) SIZED(3, 2) SIZED(3, 3) SIZED(4, 4)
}  // namespace ref
namespace pre {
bool at_waypoint(const Bumps& z, size_t i, const Obstacle& o) { return o.points.size() > 0; }
bool along_segment(const Bumps& z, size_t i, size_t j, const Obstacle& o) { return o.points.size() > 0 && i < j; }
}  // namespace pre
