// A tiny stand-in for Sleipnir: expressions that can be evaluated, and a problem
// that records what it is given and solves nothing. Only for demonstrations.
#pragma once
#include <stdint.h>
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <concepts>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace sleipnir {
enum class ExpressionType : uint8_t { kNone, kConstant, kLinear, kQuadratic, kNonlinear };
struct Node {
  double v = 0;
  std::function<double()> f;
  double eval() const { return f ? f() : v; }
};
class Variable {
 public:
  Variable() : n(std::make_shared<Node>()) {}
  Variable(double v) : n(std::make_shared<Node>()) { n->v = v; }
  explicit Variable(std::function<double()> f) : n(std::make_shared<Node>()) { n->f = std::move(f); }
  Variable& operator=(double v) {
    n = std::make_shared<Node>();
    n->v = v;
    return *this;
  }
  Variable& SetValue(double v) {
    n->v = v;
    return *this;
  }
  double Value() const { return n->eval(); }
  ExpressionType Type() const { return ExpressionType::kNonlinear; }
  void Update() {}
  std::shared_ptr<Node> n;
};
inline Variable un(const Variable& a, double (*f)(double)) {
  return Variable{std::function<double()>{[a, f] { return f(a.Value()); }}};
}
inline Variable bi(const Variable& a, const Variable& b, double (*f)(double, double)) {
  return Variable{std::function<double()>{[a, b, f] { return f(a.Value(), b.Value()); }}};
}
inline Variable operator+(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return x + y; }); }
inline Variable operator-(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return x - y; }); }
inline Variable operator*(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return x * y; }); }
inline Variable operator/(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return x / y; }); }
inline Variable operator-(const Variable& a) { return un(a, [](double x) { return -x; }); }
inline Variable operator+(const Variable& a) { return a; }
inline Variable& operator+=(Variable& a, const Variable& b) { return a = a + b; }
inline Variable& operator-=(Variable& a, const Variable& b) { return a = a - b; }
inline Variable& operator*=(Variable& a, const Variable& b) { return a = a * b; }
inline Variable& operator/=(Variable& a, const Variable& b) { return a = a / b; }
#define MINI1(F) \
  inline Variable F(const Variable& a) { return un(a, [](double x) -> double { return std::F(x); }); }
MINI1(abs) MINI1(acos) MINI1(asin) MINI1(atan) MINI1(cos) MINI1(cosh) MINI1(erf) MINI1(exp) MINI1(log) MINI1(log10)
MINI1(sin) MINI1(sinh) MINI1(sqrt) MINI1(tan) MINI1(tanh)
#undef MINI1
inline Variable sign(const Variable& a) { return un(a, [](double x) -> double { return x < 0 ? -1 : x > 0 ? 1 : 0; }); }
inline Variable atan2(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return std::atan2(x, y); }); }
inline Variable hypot(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return std::hypot(x, y); }); }
inline Variable pow(const Variable& a, const Variable& b) { return bi(a, b, [](double x, double y) { return std::pow(x, y); }); }

class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int r) : VariableMatrix(r, 1) {}
  VariableMatrix(int r, int c) : r(r), c(c), d(r * c) {}
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> l) {
    r = l.size();
    for (auto& row : l) {
      c = row.size();
      for (auto& v : row) d.push_back(v);
    }
  }
  VariableMatrix(const Variable& v) : r(1), c(1), d{v} {}
  Variable& operator()(int i, int j) { return d[i * c + j]; }
  const Variable& operator()(int i, int j) const { return d[i * c + j]; }
  Variable& operator()(int i) { return d[i]; }
  const Variable& operator()(int i) const { return d[i]; }
  Variable& operator[](int i) { return d[i]; }
  const Variable& operator[](int i) const { return d[i]; }
  int Rows() const { return r; }
  int Cols() const { return c; }
  int r = 0, c = 0;
  std::vector<Variable> d;
};
inline VariableMatrix operator*(const VariableMatrix& a, const VariableMatrix& b) {
  VariableMatrix m(a.r, b.c);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < b.c; ++j)
      for (int k = 0; k < a.c; ++k) m(i, j) = m(i, j) + a(i, k) * b(k, j);
  return m;
}

// A relation: every entry is a left side compared with zero.
struct EqualityConstraints {
  std::vector<Variable> constraints;
  EqualityConstraints() = default;
  EqualityConstraints(std::initializer_list<EqualityConstraints> l) {
    for (auto& e : l) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& l) {
    for (auto& e : l) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  operator bool() const {
    return std::all_of(constraints.begin(), constraints.end(), [](auto& v) { return v.Value() == 0; });
  }
};
struct InequalityConstraints {  // entry >= 0
  std::vector<Variable> constraints;
  InequalityConstraints() = default;
  InequalityConstraints(std::initializer_list<InequalityConstraints> l) {
    for (auto& e : l) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& l) {
    for (auto& e : l) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  operator bool() const {
    return std::all_of(constraints.begin(), constraints.end(), [](auto& v) { return v.Value() >= 0; });
  }
};
template <typename T>
concept MiniScalar = std::convertible_to<T, Variable> && !std::same_as<std::decay_t<T>, VariableMatrix>;
template <typename T, typename U>
concept MiniPair = MiniScalar<T> && MiniScalar<U> &&
                   (std::same_as<std::decay_t<T>, Variable> || std::same_as<std::decay_t<U>, Variable>);
template <typename T, typename U>
  requires MiniPair<T, U>
EqualityConstraints operator==(T&& a, U&& b) {
  EqualityConstraints r;
  r.constraints.push_back(Variable(a) - Variable(b));
  return r;
}
template <typename T, typename U>
  requires MiniPair<T, U>
InequalityConstraints operator>=(T&& a, U&& b) {
  InequalityConstraints r;
  r.constraints.push_back(Variable(a) - Variable(b));
  return r;
}
template <typename T, typename U>
  requires MiniPair<T, U>
InequalityConstraints operator>(T&& a, U&& b) { return Variable(a) >= Variable(b); }
template <typename T, typename U>
  requires MiniPair<T, U>
InequalityConstraints operator<=(T&& a, U&& b) { return Variable(b) >= Variable(a); }
template <typename T, typename U>
  requires MiniPair<T, U>
InequalityConstraints operator<(T&& a, U&& b) { return Variable(b) >= Variable(a); }

inline EqualityConstraints operator==(const VariableMatrix& a, const VariableMatrix& b) {
  EqualityConstraints r;
  for (size_t i = 0; i < a.d.size(); ++i) r.constraints.push_back(a.d[i] - b.d[i]);
  return r;
}
inline InequalityConstraints operator>=(const VariableMatrix& a, const VariableMatrix& b) {
  InequalityConstraints r;
  for (size_t i = 0; i < a.d.size(); ++i) r.constraints.push_back(a.d[i] - b.d[i]);
  return r;
}
inline InequalityConstraints operator<=(const VariableMatrix& a, const VariableMatrix& b) { return b >= a; }

enum class SolverExitCondition : int8_t {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};
inline std::string_view ToMessage(const SolverExitCondition& e) {
  switch (e) {
    case SolverExitCondition::kSuccess: return "solved to desired tolerance";
    case SolverExitCondition::kSolvedToAcceptableTolerance: return "solved to acceptable tolerance";
    case SolverExitCondition::kCallbackRequestedStop: return "callback requested stop";
    default: return "failure";
  }
}
struct SolverConfig {
  double tolerance = 1e-8;
  int maxIterations = 5000;
  double acceptableTolerance = 1e-6;
  int maxAcceptableIterations = 15;
  std::chrono::duration<double> timeout{std::numeric_limits<double>::infinity()};
  bool feasibleIPM = false;
  bool diagnostics = false;
  bool spy = false;
};
struct SolverIterationInfo {
  int iteration = 0;
  double error = 0;
  double cost = 0;
};
struct SolverStatus {
  ExpressionType costFunctionType = ExpressionType::kNone;
  ExpressionType equalityConstraintType = ExpressionType::kNone;
  ExpressionType inequalityConstraintType = ExpressionType::kNone;
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};
class OptimizationProblem;
namespace mini {
inline OptimizationProblem* last = nullptr;                             // the problem solved or extended last
inline SolverExitCondition exit = SolverExitCondition::kSuccess;        // what Solve reports
inline int iterations = 3;                                              // how often Solve calls back
inline int iterationsDone = 0;
inline std::function<void(int)> onIteration;                            // before each callback
inline SolverConfig config;                                             // what Solve was given
}  // namespace mini
class OptimizationProblem {
 public:
  OptimizationProblem() { mini::last = this; }
  Variable DecisionVariable() {
    mini::last = this;
    vars.emplace_back();
    return vars.back();
  }
  VariableMatrix DecisionVariable(int r, int c = 1) {
    VariableMatrix m(r, c);
    for (auto& v : m.d) v = DecisionVariable();
    return m;
  }
  void Minimize(const Variable& c) { cost = c; }
  void Maximize(const Variable& c) { cost = -c; }
  void SubjectTo(const EqualityConstraints& c) { eq.insert(eq.end(), c.constraints.begin(), c.constraints.end()); }
  void SubjectTo(const InequalityConstraints& c) { ineq.insert(ineq.end(), c.constraints.begin(), c.constraints.end()); }
  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    mini::config = config;
    mini::last = this;
    SolverStatus s;
    s.exitCondition = mini::exit;
    mini::iterationsDone = 0;
    for (int i = 0; i < mini::iterations; ++i) {
      if (mini::onIteration) mini::onIteration(i);
      ++mini::iterationsDone;
      if (callback && callback(SolverIterationInfo{i, 0, 0})) {
        s.exitCondition = SolverExitCondition::kCallbackRequestedStop;
        break;
      }
    }
    return s;
  }
  template <typename F>
  void Callback(F&& f) {
    callback = [f = std::forward<F>(f)](const SolverIterationInfo& i) mutable -> bool {
      if constexpr (std::same_as<std::invoke_result_t<F, const SolverIterationInfo&>, void>) {
        f(i);
        return false;
      } else {
        return f(i);
      }
    };
  }
  std::vector<Variable> vars, eq, ineq;
  std::optional<Variable> cost;
  std::function<bool(const SolverIterationInfo&)> callback;
  // How badly the current values violate the constraints.
  double violation() const {
    double w = 0;
    for (auto& v : eq) w = std::max(w, std::abs(v.Value()));
    for (auto& v : ineq) w = std::max(w, -v.Value());
    return w;
  }
};
}  // namespace sleipnir
