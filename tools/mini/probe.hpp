// Names the decision variables of a generator by what a solution reports for them.
#pragma once
#include <cmath>
#include <cstdio>
#include <vector>
#include "trajopt/SwerveTrajectoryGenerator.hpp"
struct Probe {
  using V = sleipnir::Variable;
  trajopt::SwerveTrajectoryGenerator g;
  sleipnir::OptimizationProblem* p;
  std::vector<double> start;  // initial values
  std::vector<V> dt, x, y, c, s, vx, vy, om, ax, ay, al;
  std::vector<std::vector<V>> fx, fy;
  explicit Probe(const trajopt::SwervePathBuilder& b, int64_t handle = 0) : g(b, handle), p(sleipnir::mini::last) {
    for (size_t i = 0; i < p->vars.size(); ++i) {
      start.push_back(p->vars[i].Value());
      p->vars[i].SetValue(1000.0 + i);
    }
    auto keep = sleipnir::mini::iterations;
    sleipnir::mini::iterations = 0;
    auto r = g.Generate(false).value();
    sleipnir::mini::iterations = keep;
    auto row = [&](std::vector<double>& w) {
      std::vector<V> o;
      for (auto v : w) o.push_back(p->vars.at(std::lround(v) - 1000));
      return o;
    };
    dt = row(r.dt), x = row(r.x), y = row(r.y), c = row(r.thetacos), s = row(r.thetasin), vx = row(r.vx), vy = row(r.vy),
    om = row(r.omega), ax = row(r.ax), ay = row(r.ay), al = row(r.alpha);
    for (auto& w : r.moduleFX) fx.push_back(row(w));
    for (auto& w : r.moduleFY) fy.push_back(row(w));
    reset();
  }
  void reset() {
    for (size_t i = 0; i < start.size(); ++i) p->vars[i].SetValue(start[i]);
  }
  // At rest at the origin, heading 0, with the given time step.
  void rest(double t) {
    for (auto& v : p->vars) v.SetValue(0);
    for (auto& v : c) v.SetValue(1);
    for (auto& v : dt) v.SetValue(t);
  }
  // Accelerations, forces that produce them (equal on all modules, no torque), from positions and headings.
  double violation() const { return p->violation(); }
  bool ok() const { return violation() < 1e-9; }
};
