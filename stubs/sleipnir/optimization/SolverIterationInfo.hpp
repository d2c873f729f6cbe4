// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
namespace sleipnir {
struct SolverIterationInfo {
  int iteration;
  double error;
  double cost;
};
}  // namespace sleipnir
