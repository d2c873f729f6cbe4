// One sample of the trajectory, spelled out in scalars.
#pragma once
#include "common.hpp"
#include <variant>
#include "trajopt/constraint/Constraint.hpp"
#define SAMPLE Problem &p, V x, V y, V c, V s, V vx, V vy, V w, V ax, V ay, V al
#define SAMPLE_ARGS p, x, y, c, s, vx, vy, w, ax, ay, al
// Apply a constraint the way the generator does: through the variant.
inline void apply(const Constraint& con, SAMPLE) {
  Constraint k{con};
  Pose2v pose{Translation2v{x, y}, Rotation2v{c, s}};
  Translation2v v{vx, vy};
  Translation2v a{ax, ay};
  std::visit([&](auto&& z) { z.Apply(p, pose, v, w, a, al); }, k);
}
