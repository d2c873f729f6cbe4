// The optimization problem the generator hands to the solver, spelled out.
#pragma once
#include "builder.hpp"
#include "trajopt/util/Cancellation.hpp"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/solution/SwerveSolution.hpp"
#include <algorithm>
#include <variant>
struct Columns {
  std::vector<V> x, y, c, s, vx, vy, w, ax, ay, al;
  std::vector<std::vector<V>> fx, fy;
  std::vector<V> dt;  // one per segment
};
// One sample before the first segment, and one per control interval.
inline size_t samples(const Counts& n) {
  size_t k = 1;
  for (size_t i = 0; i < n.size(); ++i) {
    k += n[i];
  }
  return k;
}
// The first sample of the segment that ends at waypoint i + 1.
inline size_t first(const Counts& n, size_t i) {
  size_t k = 1;
  for (size_t j = 0; j < i; ++j) {
    k += n[j];
  }
  return k;
}
inline Columns declare(Problem& p, const Counts& n, size_t modules) {
  Columns q;
  for (size_t k = 0; k < samples(n); ++k) {
    q.x.push_back(p.DecisionVariable());
    q.y.push_back(p.DecisionVariable());
    q.c.push_back(p.DecisionVariable());
    q.s.push_back(p.DecisionVariable());
    q.vx.push_back(p.DecisionVariable());
    q.vy.push_back(p.DecisionVariable());
    q.w.push_back(p.DecisionVariable());
    q.ax.push_back(p.DecisionVariable());
    q.ay.push_back(p.DecisionVariable());
    q.al.push_back(p.DecisionVariable());
    std::vector<V> fx, fy;
    for (size_t m = 0; m < modules; ++m) {
      fx.push_back(p.DecisionVariable());
      fy.push_back(p.DecisionVariable());
    }
    q.fx.push_back(fx);
    q.fy.push_back(fy);
  }
  for (size_t i = 0; i < n.size(); ++i) {
    q.dt.push_back(p.DecisionVariable());
  }
  return q;
}
inline std::vector<double> values(const std::vector<V>& q) {
  std::vector<double> r;
  for (size_t k = 0; k < q.size(); ++k) {
    V v = q[k];
    r.push_back(v.Value());
  }
  return r;
}
inline std::vector<std::vector<double>> values(const std::vector<std::vector<V>>& q) {
  std::vector<std::vector<double>> r;
  for (size_t k = 0; k < q.size(); ++k) {
    r.push_back(values(q[k]));
  }
  return r;
}
// What a solution reports: the values of the variables, sample by sample; the
// first sample has no time step of its own.
inline SwerveSolution report(const Columns& q, const Counts& n) {
  std::vector<double> dt;
  for (size_t i = 0; i < n.size(); ++i) {
    V v = q.dt[i];
    for (size_t k = 0; k < n[i]; ++k) {
      dt.push_back(v.Value());
    }
  }
  return {dt, values(q.x), values(q.y), values(q.c), values(q.s), values(q.vx), values(q.vy), values(q.w),
          values(q.ax), values(q.ay), values(q.al), values(q.fx), values(q.fy)};
}
// For which builders the statements are made.
inline bool sound(SwervePathBuilder& b) {
  return b.GetPath().waypoints.size() == b.GetControlIntervalCounts().size() + 1;
}
inline SwerveSolution generate(SwervePathBuilder& b) {
  SwerveTrajectoryGenerator g{b, 0};
  return g.Generate(false).value();
}
// The declarations every reference starts from.
#define PROBLEM                                               \
  Problem p;                                                  \
  const Counts n = b.GetControlIntervalCounts();              \
  const SwerveDrivetrain d = b.GetPath().drivetrain;          \
  const std::vector<Waypoint> wpts = b.GetPath().waypoints;   \
  Columns q = declare(p, n, d.modules.size())
// --- the parts of the problem
inline void minimize_time(Problem& p, const Columns& q, const Counts& n) {
  V sum = 0.0;
  for (size_t i = 0; i < n.size(); ++i) {
    sum += q.dt[i] * static_cast<double>(n[i]);
  }
  p.Minimize(sum);
}
// The narrowest gap, along x or along y, between modules listed next to each other.
inline double gap(const std::vector<SwerveModule>& m) {
  double g = INFINITY;
  for (size_t k = 1; k < m.size(); ++k) {
    double dx = std::abs(m[k - 1].translation.X() - m[k].translation.X());
    double dy = std::abs(m[k - 1].translation.Y() - m[k].translation.Y());
    if (dx != 0) {
      g = std::min(g, dx);
    }
    if (dy != 0) {
      g = std::min(g, dy);
    }
  }
  return g;
}
inline void time_steps(Problem& p, const Columns& q, const Counts& n, const SwerveDrivetrain& d) {
  for (size_t i = 0; i < n.size(); ++i) {
    p.SubjectTo(q.dt[i] >= 0);
    for (size_t m = 0; m < d.modules.size(); ++m) {
      p.SubjectTo(q.dt[i] * d.modules[m].wheelRadius * d.modules[m].wheelMaxAngularVelocity <= gap(d.modules));
    }
  }
}
inline void motion(Problem& p, const Columns& q, const Counts& n) {
  for (size_t i = 0; i < n.size(); ++i) {
    for (size_t j = 0; j < n[i]; ++j) {
      size_t k = first(n, i) + j;
      V h = q.dt[i];
      p.SubjectTo(q.x[k] == q.x[k - 1] + q.vx[k] * h);
      p.SubjectTo(q.y[k] == q.y[k - 1] + q.vy[k] * h);
      p.SubjectTo(q.vx[k] == q.vx[k - 1] + q.ax[k] * h);
      p.SubjectTo(q.vy[k] == q.vy[k - 1] + q.ay[k] * h);
      p.SubjectTo(q.w[k] == q.w[k - 1] + q.al[k] * h);
      // the turn from sample k - 1 to sample k
      V c = q.c[k] * q.c[k - 1] + q.s[k] * q.s[k - 1];
      V s = q.s[k] * q.c[k - 1] - q.c[k] * q.s[k - 1];
      p.SubjectTo(c * sin(q.w[k] * h) == s * cos(q.w[k] * h));
      p.SubjectTo(c * c + s * s == 1);
    }
  }
}
inline void dynamics(Problem& p, const Columns& q, const Counts& n, const SwerveDrivetrain& d) {
  for (size_t k = 0; k < samples(n); ++k) {
    V fx = 0.0;
    V fy = 0.0;
    V torque = 0.0;
    for (size_t m = 0; m < d.modules.size(); ++m) {
      fx += q.fx[k][m];
      fy += q.fy[k][m];
      // the arm of the module, turned to the field
      V rx = q.c[k] * d.modules[m].translation.X() - q.s[k] * d.modules[m].translation.Y();
      V ry = q.s[k] * d.modules[m].translation.X() + q.c[k] * d.modules[m].translation.Y();
      torque += rx * q.fy[k][m] - ry * q.fx[k][m];
    }
    p.SubjectTo(fx == d.mass * q.ax[k]);
    p.SubjectTo(fy == d.mass * q.ay[k]);
    p.SubjectTo(torque == d.moi * q.al[k]);
  }
}
inline void module_speed(Problem& p, const Columns& q, const Counts& n, const SwerveDrivetrain& d) {
  for (size_t k = 0; k < samples(n); ++k) {
    for (size_t m = 0; m < d.modules.size(); ++m) {
      // the velocity of the module in the frame of the robot
      V vx = q.c[k] * q.vx[k] + q.s[k] * q.vy[k] - q.w[k] * d.modules[m].translation.Y();
      V vy = q.c[k] * q.vy[k] - q.s[k] * q.vx[k] + q.w[k] * d.modules[m].translation.X();
      double top = d.modules[m].wheelRadius * d.modules[m].wheelMaxAngularVelocity;
      p.SubjectTo(vx * vx + vy * vy <= top * top);
    }
  }
}
inline void module_force(Problem& p, const Columns& q, const Counts& n, const SwerveDrivetrain& d) {
  for (size_t k = 0; k < samples(n); ++k) {
    for (size_t m = 0; m < d.modules.size(); ++m) {
      double top = d.modules[m].wheelMaxTorque / d.modules[m].wheelRadius;
      p.SubjectTo(q.fx[k][m] * q.fx[k][m] + q.fy[k][m] * q.fy[k][m] <= top * top);
    }
  }
}
inline void constrain(Problem& p, const Columns& q, size_t k, Constraint con) {
  Pose2v pose{Translation2v{q.x[k], q.y[k]}, Rotation2v{q.c[k], q.s[k]}};
  Translation2v v{q.vx[k], q.vy[k]};
  Translation2v a{q.ax[k], q.ay[k]};
  std::visit([&](auto&& z) { z.Apply(p, pose, v, q.w[k], a, q.al[k]); }, con);
}
inline void waypoint_constraints(Problem& p, const Columns& q, const Counts& n, const std::vector<Waypoint>& wpts) {
  for (size_t i = 0; i <= n.size(); ++i) {
    size_t k = first(n, i) - 1;  // the last sample of the segment that ends here
    for (size_t j = 0; j < wpts[i].waypointConstraints.size(); ++j) {
      constrain(p, q, k, wpts[i].waypointConstraints[j]);
    }
  }
}
inline void segment_constraints(Problem& p, const Columns& q, const Counts& n, const std::vector<Waypoint>& wpts) {
  for (size_t i = 0; i < n.size(); ++i) {
    for (size_t j = 0; j < wpts[i + 1].segmentConstraints.size(); ++j) {
      for (size_t k = 0; k < n[i]; ++k) {
        constrain(p, q, first(n, i) + k, wpts[i + 1].segmentConstraints[j]);
      }
    }
  }
}
