// C25: a trajectory lists, sample by sample, the time since the start and the
// state the solution has there; failures come with their message.
#include "ffi.hpp"
#include "trajopt/trajectory/HolonomicTrajectory.hpp"
#include <stdexcept>
struct Sample {
  double t, x, y, heading, vx, vy, omega;
  std::vector<double> fx, fy;
};
using Samples = std::vector<Sample>;
struct Outcome {
  bool ok;
  std::string why;
  Samples samples;
};
namespace impl {
Samples convert(const SwerveSolution& s) {
  HolonomicTrajectory t{s};
  Samples r;
  for (size_t k = 0; k < t.samples.size(); ++k) {
    const HolonomicTrajectorySample& z = t.samples[k];
    r.push_back({z.timestamp, z.x, z.y, z.heading, z.velocityX, z.velocityY, z.angularVelocity, z.moduleForcesX,
                 z.moduleForcesY});
  }
  return r;
}
inline std::vector<double> plain(const rust::Vec<double>& v) {
  std::vector<double> r;
  for (size_t k = 0; k < v.size(); ++k) {
    r.push_back(v[k]);
  }
  return r;
}
inline Samples plain(const rsffi::HolonomicTrajectory& t) {
  Samples r;
  for (size_t k = 0; k < t.samples.size(); ++k) {
    const rsffi::HolonomicTrajectorySample& z = t.samples[k];
    r.push_back({z.timestamp, z.x, z.y, z.heading, z.velocity_x, z.velocity_y, z.angular_velocity,
                 plain(z.module_forces_x), plain(z.module_forces_y)});
  }
  return r;
}
Outcome generate(const Shim& s, bool diagnostics, int64_t handle) {
  try {
    return {true, "", plain(s.generate(diagnostics, handle))};
  } catch (const std::exception& e) {
    return {false, e.what(), {}};
  }
}
void progress(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& solution, int64_t handle) {
  s.add_progress_callback(f);
  for (auto& c : spec::inner(s).GetPath().callbacks) {
    c(solution, handle);
  }
}
// A callback reports each solution it is given, whatever it reported before.
void progress_again(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& first,
                    SwerveSolution& second, int64_t handle) {
  s.add_progress_callback(f);
  auto& c = spec::inner(s).GetPath().callbacks.back();
  c(first, handle);
  c(second, handle);
}
// Samples and trajectories from their parts.
Sample from_parts(double t, double x, double y, double h, double vx, double vy, double w) {
  HolonomicTrajectorySample z{t, x, y, h, vx, vy, w};
  return {z.timestamp, z.x, z.y, z.heading, z.velocityX, z.velocityY, z.angularVelocity, z.moduleForcesX,
          z.moduleForcesY};
}
Sample from_all_parts(double t, double x, double y, double h, double vx, double vy, double w,
                      const std::vector<double>& fx, const std::vector<double>& fy) {
  HolonomicTrajectorySample z{t, x, y, h, vx, vy, w, fx, fy};
  return {z.timestamp, z.x, z.y, z.heading, z.velocityX, z.velocityY, z.angularVelocity, z.moduleForcesX,
          z.moduleForcesY};
}
Sample blank() {
  HolonomicTrajectorySample z;
  return {z.timestamp, z.x, z.y, z.heading, z.velocityX, z.velocityY, z.angularVelocity, z.moduleForcesX,
          z.moduleForcesY};
}
std::vector<HolonomicTrajectorySample> from_samples(const std::vector<HolonomicTrajectorySample>& l) {
  HolonomicTrajectory t{l};
  return t.samples;
}
std::vector<HolonomicTrajectorySample> empty() { return HolonomicTrajectory{}.samples; }
}  // namespace impl
namespace ref {
Samples convert(const SwerveSolution& s) {
  Samples r;
  double t = 0.0;
  for (size_t k = 0; k < s.x.size(); ++k) {
    if (k > 0) {
      t += s.dt[k - 1];
    }
    r.push_back({t, s.x[k], s.y[k], std::atan2(s.thetasin[k], s.thetacos[k]), s.vx[k], s.vy[k], s.omega[k],
                 s.moduleFX[k], s.moduleFY[k]});
  }
  return r;
}
inline rust::Vec<double> rusty(const std::vector<double>& v) {
  rust::Vec<double> r;
  for (size_t k = 0; k < v.size(); ++k) {
    r.push_back(v[k]);
  }
  return r;
}
inline rsffi::HolonomicTrajectory reported(const SwerveSolution& solution) {
  rsffi::HolonomicTrajectory t;
  for (const Sample& z : convert(solution)) {
    rsffi::HolonomicTrajectorySample q;
    q.timestamp = z.t;
    q.x = z.x;
    q.y = z.y;
    q.heading = z.heading;
    q.velocity_x = z.vx;
    q.velocity_y = z.vy;
    q.angular_velocity = z.omega;
    q.module_forces_x = rusty(z.fx);
    q.module_forces_y = rusty(z.fy);
    t.samples.push_back(q);
  }
  return t;
}
void progress(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& solution, int64_t handle) {
  for (auto& c : spec::inner(s).GetPath().callbacks) {
    c(solution, handle);
  }
  f(reported(solution), handle);
}
void progress_again(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& first,
                    SwerveSolution& second, int64_t handle) {
  f(reported(first), handle);
  f(reported(second), handle);
}
Outcome generate(const Shim& s, bool diagnostics, int64_t handle) {
  SwerveTrajectoryGenerator g{spec::inner(s), handle};
  auto r = g.Generate(diagnostics);
  if (r.has_value()) {
    return {true, "", convert(r.value())};
  }
  return {false, r.error(), {}};
}
Sample from_parts(double t, double x, double y, double h, double vx, double vy, double w) {
  return {t, x, y, h, vx, vy, w, {}, {}};
}
Sample from_all_parts(double t, double x, double y, double h, double vx, double vy, double w,
                      const std::vector<double>& fx, const std::vector<double>& fy) {
  return {t, x, y, h, vx, vy, w, fx, fy};
}
Sample blank() { return {0, 0, 0, 0, 0, 0, 0, {}, {}}; }
std::vector<HolonomicTrajectorySample> from_samples(const std::vector<HolonomicTrajectorySample>& l) { return l; }
std::vector<HolonomicTrajectorySample> empty() { return {}; }
}  // namespace ref
namespace pre {
inline bool whole(const SwerveSolution& z) {
  return z.y.size() == z.x.size() && z.thetacos.size() == z.x.size() && z.thetasin.size() == z.x.size() &&
         z.vx.size() == z.x.size() && z.vy.size() == z.x.size() && z.omega.size() == z.x.size() &&
         z.moduleFX.size() == z.x.size() && z.moduleFY.size() == z.x.size() && z.x.size() == z.dt.size() + 1;
}
bool convert(const SwerveSolution& s) { return whole(s); }
bool progress(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& solution, int64_t handle) {
  return whole(solution);
}
bool progress_again(Shim& s, rust::Fn<void(rsffi::HolonomicTrajectory, int64_t)> f, SwerveSolution& first,
                    SwerveSolution& second, int64_t handle) {
  return whole(first) && whole(second);
}
}  // namespace pre
