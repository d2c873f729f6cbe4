// The observable state of a path builder.
#pragma once
#include "common.hpp"
#include "trajopt/constraint/Constraint.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"
#include "trajopt/util/GenerateLinearInitialGuess.hpp"
using Guess = std::vector<std::vector<Pose2d>>;
using Counts = std::vector<size_t>;
using Waypoints = std::vector<Waypoint>;
namespace spec {
// The guess points the builder hands to the linear initial guess.
Guess guess_points(const SwervePathBuilder& b);
}  // namespace spec
struct State {
  Waypoints waypoints;
  Counts counts;
  Guess guess;
};
inline State state(SwervePathBuilder& b) {
  return {b.GetPath().waypoints, b.GetControlIntervalCounts(), spec::guess_points(b)};
}
// Waypoints come into being up to index i: unconstrained, guessed at the origin,
// 40 control intervals after the previous one.
inline void grow(State& s, size_t i) {
  for (size_t k = s.waypoints.size(); k <= i; ++k) {
    s.waypoints.push_back(Waypoint{});
    s.guess.push_back(std::vector<Pose2d>{Pose2d{0.0, 0.0, Rotation2d{1.0, 0.0}}});
    if (k > 0) {
      s.counts.push_back(40);
    }
  }
}
