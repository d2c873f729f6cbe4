// C21: generating starts uncancelled, and the solver is asked to stop at the
// first iteration that finds the flag raised.
#include "gen.hpp"
namespace impl {
void solve(SwervePathBuilder b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  g.Generate(false);
}
// A generator that ran, and may have been cancelled, is no different.
void solve_again(SwervePathBuilder b, int64_t handle) {
  SwerveTrajectoryGenerator g{b, handle};
  g.Generate(false);
  g.Generate(false);
}
}  // namespace impl
namespace ref {
void solve(SwervePathBuilder b, int64_t handle) {
  Problem p;
  GetCancellationFlag() = 0;
  p.Callback([](const sleipnir::SolverIterationInfo&) -> bool { return GetCancellationFlag() != 0; });
  p.Solve({.tolerance = 1e-4, .diagnostics = false});
}
void solve_again(SwervePathBuilder b, int64_t handle) {
  Problem p;
  for (int k = 0; k < 2; ++k) {
    GetCancellationFlag() = 0;
    p.Callback([](const sleipnir::SolverIterationInfo&) -> bool { return GetCancellationFlag() != 0; });
    p.Solve({.tolerance = 1e-4, .diagnostics = false});
  }
}
}  // namespace ref
namespace pre {
bool solve(SwervePathBuilder b, int64_t handle) { return sound(b); }
bool solve_again(SwervePathBuilder b, int64_t handle) { return sound(b); }
}  // namespace pre
