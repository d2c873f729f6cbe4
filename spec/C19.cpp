// C19: the solver starts from the initial guess, and from velocities and
// accelerations that are the finite differences of the guess.
#include "gen.hpp"
namespace impl {
SwerveSolution start(SwervePathBuilder b) { return generate(b); }
}  // namespace impl
namespace ref {
SwerveSolution start(SwervePathBuilder b) {
  const Counts n = b.GetControlIntervalCounts();
  const size_t total = samples(n);
  const size_t modules = b.GetPath().drivetrain.modules.size();
  const SwerveSolution g = b.CalculateInitialGuess();
  const double h = g.dt[0];
  SwerveSolution r;
  for (size_t i = 0; i < n.size(); ++i) {
    for (size_t k = 0; k < n[i]; ++k) {
      r.dt.push_back(5.0 / n[i]);
    }
  }
  std::vector<double> none;
  for (size_t m = 0; m < modules; ++m) {
    none.push_back(0.0);
  }
  for (size_t k = 0; k < total; ++k) {
    double turn = 0.0;
    r.x.push_back(g.x[k]);
    r.y.push_back(g.y[k]);
    r.thetacos.push_back(g.thetacos[k]);
    r.thetasin.push_back(g.thetasin[k]);
    r.vx.push_back(k == 0 ? 0.0 : (g.x[k] - g.x[k - 1]) / h);
    r.vy.push_back(k == 0 ? 0.0 : (g.y[k] - g.y[k - 1]) / h);
    if (k > 0) {
      turn = std::atan2(g.thetasin[k] * g.thetacos[k - 1] - g.thetacos[k] * g.thetasin[k - 1],
                        g.thetacos[k] * g.thetacos[k - 1] + g.thetasin[k] * g.thetasin[k - 1]);
    }
    r.omega.push_back(k == 0 ? 0.0 : turn / h);
    r.moduleFX.push_back(none);
    r.moduleFY.push_back(none);
  }
  for (size_t k = 0; k < total; ++k) {
    r.ax.push_back(k == 0 ? 0.0 : (r.vx[k] - r.vx[k - 1]) / h);
    r.ay.push_back(k == 0 ? 0.0 : (r.vy[k] - r.vy[k - 1]) / h);
    r.alpha.push_back(k == 0 ? 0.0 : (r.omega[k] - r.omega[k - 1]) / h);
  }
  return r;
}
}  // namespace ref
namespace pre {
bool start(SwervePathBuilder b) { return sound(b); }
}  // namespace pre
