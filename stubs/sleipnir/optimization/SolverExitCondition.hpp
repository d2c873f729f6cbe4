// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include <stdint.h>
#include <string_view>
namespace sleipnir {
enum class SolverExitCondition : int8_t {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};
std::string_view ToMessage(const SolverExitCondition& exitCondition);
}  // namespace sleipnir
