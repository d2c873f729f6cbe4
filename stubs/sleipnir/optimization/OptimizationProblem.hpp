// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <concepts>
#include <functional>
#include <iterator>
#include <numeric>
#include <optional>
#include <string_view>
#include <utility>
#include <vector>
#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
#include "sleipnir/optimization/SolverConfig.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
#include "sleipnir/optimization/SolverIterationInfo.hpp"
#include "sleipnir/optimization/SolverStatus.hpp"
namespace sleipnir {
class OptimizationProblem {
 public:
  OptimizationProblem() noexcept = default;
  [[nodiscard]] Variable DecisionVariable();
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1);
  void Minimize(const Variable& cost);
  void Minimize(Variable&& cost);
  void Maximize(const Variable& objective);
  void Maximize(Variable&& objective);
  void SubjectTo(const EqualityConstraints& constraint);
  void SubjectTo(EqualityConstraints&& constraint);
  void SubjectTo(const InequalityConstraints& constraint);
  void SubjectTo(InequalityConstraints&& constraint);
  SolverStatus Solve(const SolverConfig& config = SolverConfig{});
  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&> &&
             std::same_as<std::invoke_result_t<F, const SolverIterationInfo&>, void>
  void Callback(F&& callback) {
    m_callback = [=, cb = std::forward<F>(callback)](const SolverIterationInfo& info) {
      cb(info);
      return false;
    };
  }
  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&> &&
             std::same_as<std::invoke_result_t<F, const SolverIterationInfo&>, bool>
  void Callback(F&& callback) {
    m_callback = std::forward<F>(callback);
  }

 private:
  std::function<bool(const SolverIterationInfo&)> m_callback;
};
}  // namespace sleipnir
