// C20: Generate hands back the values the solver ended on, unless the solver
// failed or was stopped: then it says why.
#include "gen.hpp"
struct Result {
  bool ok;
  std::string why;
  SwerveSolution solution;
};
namespace impl {
Result outcome(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  SwerveTrajectoryGenerator g{b, handle};
  auto r = g.Generate(diagnostics);
  if (r.has_value()) {
    return {true, "", r.value()};
  } else {
    return {false, r.error(), {}};
  }
}
// A second run reports the second run.
Result second(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  SwerveTrajectoryGenerator g{b, handle};
  (void)g.Generate(diagnostics);
  auto r = g.Generate(diagnostics);
  if (r.has_value()) {
    return {true, "", r.value()};
  } else {
    return {false, r.error(), {}};
  }
}
SwerveSolution solves(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  SwerveTrajectoryGenerator g{b, handle};
  return g.Generate(diagnostics).value();
}
}  // namespace impl
namespace ref {
Result outcome(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  PROBLEM;
  minimize_time(p, q, n);
  time_steps(p, q, n, d);
  motion(p, q, n);
  dynamics(p, q, n, d);
  module_speed(p, q, n, d);
  module_force(p, q, n, d);
  waypoint_constraints(p, q, n, wpts);
  segment_constraints(p, q, n, wpts);
  sleipnir::SolverConfig config;
  config.tolerance = 0.0001;
  config.diagnostics = diagnostics;
  p.Callback([](const sleipnir::SolverIterationInfo&) -> bool { return GetCancellationFlag() != 0; });
  auto status = p.Solve(config);
  int code = static_cast<int>(status.exitCondition);
  if (code < 0 || code == static_cast<int>(sleipnir::SolverExitCondition::kCallbackRequestedStop)) {
    return {false, std::string{sleipnir::ToMessage(status.exitCondition)}, {}};
  }
  return {true, "", report(q, n)};
}
Result second(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  PROBLEM;
  auto poll = [](const sleipnir::SolverIterationInfo&) -> bool { return GetCancellationFlag() != 0; };
  p.Callback(poll);
  p.Solve({.tolerance = 0.0001, .diagnostics = diagnostics});
  p.Callback(poll);
  auto status = p.Solve({.tolerance = 0.0001, .diagnostics = diagnostics});
  int code = static_cast<int>(status.exitCondition);
  if (code < 0 || code == static_cast<int>(sleipnir::SolverExitCondition::kCallbackRequestedStop)) {
    return {false, std::string{sleipnir::ToMessage(status.exitCondition)}, {}};
  }
  return {true, "", report(q, n)};
}
SwerveSolution solves(SwervePathBuilder b, int64_t handle, bool diagnostics) {
  PROBLEM;
  p.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool outcome(SwervePathBuilder b, int64_t handle, bool diagnostics) { return sound(b); }
bool second(SwervePathBuilder b, int64_t handle, bool diagnostics) { return sound(b); }
bool solves(SwervePathBuilder b, int64_t handle, bool diagnostics) { return sound(b); }
}  // namespace pre
