// Shared vocabulary of the specification units. In every unit
//   impl::f  uses the public API of /repo the way a client would,
//   ref::f   states the value or the effects f must have, in plain arithmetic,
//   pre::f   states for which arguments the statement is made (absent: all).
// The three are only ever read by the analysis: never compiled to code or run.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <numbers>
#include <string>
#include <vector>
#include <sleipnir/optimization/OptimizationProblem.hpp>
#include "trajopt/geometry/Pose2.hpp"
#include "trajopt/geometry/Rotation2.hpp"
#include "trajopt/geometry/Translation2.hpp"

using namespace trajopt;
using V = sleipnir::Variable;
using Problem = sleipnir::OptimizationProblem;

template <typename T>
struct XY {
  T x, y;
};
template <typename T>
struct Pos {
  T x, y, c, s;
};
template <typename T>
XY<T> xy(const Translation2<T>& t) { return {t.X(), t.Y()}; }
template <typename T>
XY<T> cs(const Rotation2<T>& r) { return {r.Cos(), r.Sin()}; }
template <typename T>
Pos<T> pos(const Pose2<T>& p) {
  return {p.Translation().X(), p.Translation().Y(), p.Rotation().Cos(), p.Rotation().Sin()};
}
template <typename A, typename B>
using Sum = decltype(std::declval<A>() + std::declval<B>());
