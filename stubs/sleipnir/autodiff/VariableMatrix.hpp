// Declaration-only model of the pinned Sleipnir's public API (see DESIGN.md).
#pragma once
#include <initializer_list>
#include <vector>
#include "sleipnir/autodiff/Variable.hpp"
namespace sleipnir {
class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows);
  VariableMatrix(int rows, int cols);
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list);  // NOLINT
  VariableMatrix(std::vector<std::vector<double>> list);    // NOLINT
  VariableMatrix(std::vector<std::vector<Variable>> list);  // NOLINT
  VariableMatrix(const Variable& variable);                 // NOLINT
  Variable& operator()(int row, int col);
  const Variable& operator()(int row, int col) const;
  Variable& operator()(int row);
  const Variable& operator()(int row) const;
  Variable& operator[](int row);
  const Variable& operator[](int row) const;
  friend VariableMatrix operator*(const VariableMatrix& lhs, const VariableMatrix& rhs);
  friend VariableMatrix operator+(const VariableMatrix& lhs, const VariableMatrix& rhs);
  friend VariableMatrix operator-(const VariableMatrix& lhs, const VariableMatrix& rhs);
  friend VariableMatrix operator-(const VariableMatrix& lhs);
  VariableMatrix T() const;
  int Rows() const;
  int Cols() const;
  double Value(int row, int col) const;
  double Value(int index) const;
};
}  // namespace sleipnir
#include "sleipnir/optimization/Constraints.hpp"
