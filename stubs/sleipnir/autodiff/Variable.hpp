// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <concepts>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "sleipnir/autodiff/ExpressionType.hpp"

namespace sleipnir {

class VariableMatrix;
class OptimizationProblem;

class Variable {
 public:
  Variable() = default;
  Variable(double value);  // NOLINT
  Variable(const Variable&) = default;
  Variable(Variable&&) = default;
  Variable& operator=(const Variable&) = default;
  Variable& operator=(Variable&&) = default;
  Variable& operator=(double value);
  Variable& SetValue(double value);
  friend Variable operator*(const Variable& lhs, const Variable& rhs);
  friend Variable operator/(const Variable& lhs, const Variable& rhs);
  friend Variable operator+(const Variable& lhs, const Variable& rhs);
  friend Variable operator-(const Variable& lhs, const Variable& rhs);
  friend Variable operator-(const Variable& lhs);
  friend Variable operator+(const Variable& lhs);
  Variable& operator*=(const Variable& rhs);
  Variable& operator/=(const Variable& rhs);
  Variable& operator+=(const Variable& rhs);
  Variable& operator-=(const Variable& rhs);
  double Value() const;
  ExpressionType Type() const;
  void Update();

 private:
  void* expr = nullptr;
};

Variable operator*(const Variable& lhs, const Variable& rhs);
Variable operator/(const Variable& lhs, const Variable& rhs);
Variable operator+(const Variable& lhs, const Variable& rhs);
Variable operator-(const Variable& lhs, const Variable& rhs);
Variable operator-(const Variable& lhs);
Variable operator+(const Variable& lhs);

Variable abs(const Variable& x);
Variable acos(const Variable& x);
Variable asin(const Variable& x);
Variable atan(const Variable& x);
Variable atan2(const Variable& y, const Variable& x);
Variable cos(const Variable& x);
Variable cosh(const Variable& x);
Variable erf(const Variable& x);
Variable exp(const Variable& x);
Variable hypot(const Variable& x, const Variable& y);
Variable hypot(const Variable& x, const Variable& y, const Variable& z);
Variable pow(const Variable& base, const Variable& power);
Variable log(const Variable& x);
Variable log10(const Variable& x);
Variable sign(const Variable& x);
Variable sin(const Variable& x);
Variable sinh(const Variable& x);
Variable sqrt(const Variable& x);
Variable tan(const Variable& x);
Variable tanh(const Variable& x);

}  // namespace sleipnir
#include "sleipnir/optimization/Constraints.hpp"
