// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include "sleipnir/autodiff/ExpressionType.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
namespace sleipnir {
struct SolverStatus {
  ExpressionType costFunctionType = ExpressionType::kNone;
  ExpressionType equalityConstraintType = ExpressionType::kNone;
  ExpressionType inequalityConstraintType = ExpressionType::kNone;
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};
}  // namespace sleipnir
