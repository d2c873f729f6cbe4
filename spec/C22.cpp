// C22: progress callbacks get the current solution and the generator's handle,
// in order, at most 60 times a second.
#include "gen.hpp"
#include <chrono>
namespace impl {
SwerveSolution progress(SwervePathBuilder b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  return g.Generate(false).value();
}
SwerveSolution again(SwervePathBuilder b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  (void)g.Generate(false);
  return g.Generate(false).value();
}
}  // namespace impl
namespace ref {
SwerveSolution progress(SwervePathBuilder b, int64_t handle) {
  using std::chrono::steady_clock;
  PROBLEM;

  auto last = steady_clock::now();
  p.Callback([&](const sleipnir::SolverIterationInfo&) -> bool {
    auto now = steady_clock::now();
    if (now - last >= std::chrono::duration<double>{1.0 / 60}) {
      last = now;
      SwerveSolution current = report(q, n);
      for (size_t i = 0; i < b.GetPath().callbacks.size(); ++i) {
        b.GetPath().callbacks[i](current, handle);
      }
    }
    return GetCancellationFlag() != 0;
  });
  p.Solve({.tolerance = 1e-4, .diagnostics = false});
  return report(q, n);
}
SwerveSolution again(SwervePathBuilder b, int64_t handle) {
  using std::chrono::steady_clock;
  PROBLEM;

  auto last = steady_clock::now();
  auto notify = [&](const sleipnir::SolverIterationInfo&) -> bool {
    auto now = steady_clock::now();
    if (now - last >= std::chrono::duration<double>{1.0 / 60}) {
      last = now;
      SwerveSolution current = report(q, n);
      for (size_t i = 0; i < b.GetPath().callbacks.size(); ++i) {
        b.GetPath().callbacks[i](current, handle);
      }
    }
    return GetCancellationFlag() != 0;
  };
  p.Callback(notify);
  p.Solve({.tolerance = 1e-4, .diagnostics = false});
  p.Callback(notify);
  p.Solve({.tolerance = 1e-4, .diagnostics = false});
  return report(q, n);
}
}  // namespace ref
namespace pre {
bool progress(SwervePathBuilder b, int64_t handle) { return sound(b); }
bool again(SwervePathBuilder b, int64_t handle) { return sound(b); }
}  // namespace pre
