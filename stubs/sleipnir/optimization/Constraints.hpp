// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include <concepts>
#include <initializer_list>
#include <span>
#include <type_traits>
#include <vector>
#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
namespace sleipnir {

template <typename T>
concept ScalarLike = std::same_as<std::decay_t<T>, double> || std::same_as<std::decay_t<T>, float> ||
                     std::integral<std::decay_t<T>> || std::same_as<std::decay_t<T>, Variable>;
template <typename T>
concept MatrixLike = std::same_as<std::decay_t<T>, VariableMatrix>;
template <typename T>
concept AutodiffLike =
    std::same_as<std::decay_t<T>, Variable> || std::same_as<std::decay_t<T>, VariableMatrix>;

struct EqualityConstraints {
  std::vector<Variable> constraints;
  EqualityConstraints(std::initializer_list<EqualityConstraints> equalityConstraints);  // NOLINT
  explicit EqualityConstraints(std::span<const EqualityConstraints> equalityConstraints);
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& equalityConstraints);
  operator bool() const;  // NOLINT
};

struct InequalityConstraints {
  std::vector<Variable> constraints;
  InequalityConstraints(std::initializer_list<InequalityConstraints> inequalityConstraints);  // NOLINT
  explicit InequalityConstraints(std::span<const InequalityConstraints> inequalityConstraints);
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& inequalityConstraints);
  operator bool() const;  // NOLINT
};

template <typename LHS, typename RHS>
  requires(ScalarLike<LHS> || MatrixLike<LHS>) && (ScalarLike<RHS> || MatrixLike<RHS>) &&
          (AutodiffLike<LHS> || AutodiffLike<RHS>)
EqualityConstraints operator==(LHS&& lhs, RHS&& rhs);
template <typename LHS, typename RHS>
  requires(ScalarLike<LHS> || MatrixLike<LHS>) && (ScalarLike<RHS> || MatrixLike<RHS>) &&
          (AutodiffLike<LHS> || AutodiffLike<RHS>)
InequalityConstraints operator<(LHS&& lhs, RHS&& rhs);
template <typename LHS, typename RHS>
  requires(ScalarLike<LHS> || MatrixLike<LHS>) && (ScalarLike<RHS> || MatrixLike<RHS>) &&
          (AutodiffLike<LHS> || AutodiffLike<RHS>)
InequalityConstraints operator<=(LHS&& lhs, RHS&& rhs);
template <typename LHS, typename RHS>
  requires(ScalarLike<LHS> || MatrixLike<LHS>) && (ScalarLike<RHS> || MatrixLike<RHS>) &&
          (AutodiffLike<LHS> || AutodiffLike<RHS>)
InequalityConstraints operator>(LHS&& lhs, RHS&& rhs);
template <typename LHS, typename RHS>
  requires(ScalarLike<LHS> || MatrixLike<LHS>) && (ScalarLike<RHS> || MatrixLike<RHS>) &&
          (AutodiffLike<LHS> || AutodiffLike<RHS>)
InequalityConstraints operator>=(LHS&& lhs, RHS&& rhs);

}  // namespace sleipnir
