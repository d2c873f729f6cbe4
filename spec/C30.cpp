// C30: the order in which modules are listed does not matter. Swapping any two
// neighbours of the list (and so any reordering) leaves the problem the same, up
// to the order of the forces in a solution.
#include "gen.hpp"
inline SwerveDrivetrain swapped(SwerveDrivetrain d, size_t i) {
  SwerveModule a = d.modules[i];
  SwerveModule b = d.modules[i + 1];
  d.modules[i] = b;
  d.modules[i + 1] = a;
  return d;
}
inline std::vector<double> swapped(std::vector<double> f, size_t i) {
  double a = f[i];
  double b = f[i + 1];
  f[i] = b;
  f[i + 1] = a;
  return f;
}
inline SwerveSolution reordered(SwervePathBuilder& b, size_t i) {
  SwervePathBuilder c{b};
  c.SetDrivetrain(swapped(b.GetPath().drivetrain, i));
  SwerveTrajectoryGenerator g{c, 0};
  const SwerveSolution r = g.Generate(false).value();
  std::vector<std::vector<double>> fx, fy;
  for (size_t k = 0; k < r.moduleFX.size(); ++k) {
    fx.push_back(swapped(r.moduleFX[k], i));
    fy.push_back(swapped(r.moduleFY[k], i));
  }
  return {r.dt, r.x, r.y, r.thetacos, r.thetasin, r.vx, r.vy, r.omega, r.ax, r.ay, r.alpha, fx, fy};
}
#define PART(NAME, ...)                                                                   \
  namespace impl { SwerveSolution NAME(SwervePathBuilder b, size_t i) { return reordered(b, i); } } \
  namespace ref { SwerveSolution NAME(SwervePathBuilder b, size_t i) { PROBLEM; __VA_ARGS__; return report(q, n); } } \
  namespace pre { bool NAME(SwervePathBuilder b, size_t i) { return sound(b) && i + 1 < b.GetPath().drivetrain.modules.size(); } }
PART(cost, minimize_time(p, q, n))
PART(newton, dynamics(p, q, n, d))
PART(speed, module_speed(p, q, n, d))
PART(force, module_force(p, q, n, d))
PART(time_step, time_steps(p, q, n, swapped(d, i)))
// Known finding: the narrowest width is taken over neighbours in the list only.
PART(narrowest, time_steps(p, q, n, d))
PART(nothing_else, minimize_time(p, q, n); time_steps(p, q, n, swapped(d, i)); motion(p, q, n); dynamics(p, q, n, d);
     module_speed(p, q, n, d); module_force(p, q, n, d); waypoint_constraints(p, q, n, wpts);
     segment_constraints(p, q, n, wpts))
