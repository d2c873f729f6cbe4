// Not a property: small programs with known answers for the analyser itself
// (tools/selftest.py).  Pairs named same_* are equivalent and must be
// discharged; pairs named diff_* differ and must not be.
#include <cmath>
#include <numeric>
#include <utility>
#include <variant>
#include <functional>
#include <array>
#include <tuple>
#include <optional>
#include <algorithm>
#include <numeric>
#include <ranges>
#include <span>
#include <vector>
using V = std::vector<double>;
struct P2 { double x, y; };
namespace impl {
double same_views(const V& v) {
  double s = 0;
  for (auto& e : v | std::views::drop(1)) s += e;
  return s;
}
double same_reverse(const V& v) {
  double s = 0;
  for (auto& e : std::views::reverse(v)) s = 2 * s + e;
  return s;
}
V same_transform(const V& v) {
  V o;
  std::ranges::transform(v, std::back_inserter(o), [](double x) { return 2 * x; });
  return o;
}
V same_transform2(const V& v, const V& w) {
  V o(v.size());
  std::transform(v.begin(), v.end(), w.begin(), o.begin(), [](double x, double y) { return x * y; });
  return o;
}
V same_viewmap(const V& v) {
  V o;
  for (double d : v | std::views::transform([](double x) { return x + 1; }) | std::views::drop(2)) o.push_back(d);
  return o;
}
V same_iota(int n) {
  V o;
  for (int i : std::views::iota(0, n)) o.push_back(i * 2.0);
  return o;
}
V same_iota2(const V& v) {
  V o;
  for (size_t i : std::views::iota(size_t{0}, v.size()) | std::views::reverse) o.push_back(v[i]);
  return o;
}
double same_sum(const V& v) { return std::accumulate(v.begin(), v.end(), 0.0); }
double same_reduce(const V& v) {
  return std::transform_reduce(v.begin(), v.end(), 0.0, std::plus<>{}, [](double x) { return x * x; });
}
double same_dot(const V& v, const V& w) { return std::inner_product(v.begin(), v.end(), w.begin(), 0.0); }
V same_span(V v) {
  std::span<double> s{v};
  for (auto& e : s) e *= 2;
  return v;
}
V same_span2(V v) {
  for (auto& e : std::span(v).subspan(1)) e = 0;
  return v;
}
bool same_any(const V& v) { return std::ranges::any_of(v, [](double x) { return x > 1; }); }
int same_count(const V& v) { return std::ranges::count_if(v, [](double x) { return x > 1; }); }
V same_scan(const V& v) {
  V o;
  std::partial_sum(v.begin(), v.end(), std::back_inserter(o));
  return o;
}
double same_min(const V& v) { return v.empty() ? 0 : *std::min_element(v.begin(), v.end()); }
double same_min2(const V& v) { return v.empty() ? 0 : std::ranges::min(v); }
double same_proj(const std::vector<P2>& v) {
  double s = 0;
  std::ranges::for_each(v, [&](double x) { s += x; }, &P2::x);
  return s;
}
double same_proj2(const std::vector<P2>& v) {
  double s = 0;
  for (double x : v | std::views::transform(&P2::x)) s += x;
  return s;
}
V same_copyif(const V& v) {
  V o;
  std::ranges::copy_if(v, std::back_inserter(o), [](double x) { return x > 0; });
  return o;
}
V same_generate(int n) {
  V o;
  int i = 0;
  std::generate_n(std::back_inserter(o), n, [&] { return 3.0 * i++; });
  return o;
}
V same_ctor(const V& v) {
  auto w = v | std::views::drop(1);
  return V(w.begin(), w.end());
}
double same_first(const V& v) { auto it = std::find_if(v.begin(), v.end(), [](double x) { return x > 3; }); return it == v.end() ? -1 : *it; }
bool same_equal(const V& v, const V& w) { return std::ranges::equal(v, w); }
double diff_views(const V& v) {
  double s = 0;
  for (auto& e : v | std::views::drop(2)) s += e;
  return s;
}
V diff_span(V v) {
  std::span<double> s{v};
  for (auto& e : s) e *= 2;
  return v;
}
double diff_minmax(const V& v) { return v.empty() ? 0 : std::ranges::max(v); }
bool diff_equal(const V& v, const V& w) { return std::equal(v.begin(), v.end(), w.begin()); }
V diff_take(const V& v) {
  V o;
  for (double d : v | std::views::take(3)) o.push_back(d);
  return o;
}
std::vector<V> same_rows(const V& v, size_t n) {
  std::vector<V> o;
  o.resize(v.size());
  for (auto& r : o) {
    while (r.size() < n) r.push_back(1.0);
  }
  return o;
}
std::vector<V> same_rows2(const V& v, size_t n) {
  std::vector<V> o(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = 0; j < n; ++j) o[i].push_back(v[i] * j);
  }
  return o;
}
std::vector<V> same_rows3(const V& v, size_t n) {
  std::vector<V> o(v.size());
  auto fill = [&](V& row, double x) {
    row.reserve(n);
    while (row.size() < n) row.emplace_back(x);
  };
  size_t i = 0;
  for (double x : v) fill(o[i++], x);
  return o;
}
V same_while(const V& v) {
  V o;
  while (o.size() < v.size()) o.push_back(v[o.size()] + 1);
  return o;
}

enum class Mode { kOff, kHalf, kFull };
double same_switch(int m, double x) {
  switch (static_cast<Mode>(m)) {
    case Mode::kOff:
      return 0.0;
    case Mode::kHalf:
      x /= 2;
      [[fallthrough]];
    case Mode::kFull:
      return x;
    default:
      break;
  }
  return -1.0;
}
double same_dowhile(const V& v) {
  if (v.empty()) return 0.0;
  double s = 0.0;
  size_t i = 0;
  do {
    s += v[i];
  } while (++i < v.size());
  return s;
}
std::optional<double> last_positive(const V& v) {
  std::optional<double> r;
  for (double d : v) {
    if (d > 0) r = d;
  }
  return r;
}
double same_optional(const V& v) {
  if (auto p = last_positive(v)) return *p;
  return -1;
}
double same_optional2(const V& v) { return last_positive(v).value_or(-1); }
double same_tuple(double a, double b) {
  auto [s, d] = std::tuple{a + b, a - b};
  std::tie(s, d) = std::make_tuple(d, s);
  return s * 2 + d;
}
double same_tuple2(double a, double b) {
  const auto t = std::make_pair(a, b);
  return t.first - std::get<1>(t);
}
double same_array(double a, double b) {
  std::array<double, 3> q{a, b, a * b};
  double s = 0;
  for (size_t i = 0; i < q.size(); ++i) s += q[i] * (i + 1);
  return s;
}
double same_carray(double a, double b) {
  const double q[] = {a, b, a * b};
  double s = 0;
  for (double d : q) s += d;
  return s;
}
double same_rbegin(const V& v) {
  double s = 0;
  for (auto it = v.rbegin(); it != v.rend(); ++it) s = 2 * s + *it;
  return s;
}
double same_data(const V& v) {
  double s = 0;
  const double* p = v.data();
  for (const double* q = p; q != p + v.size(); ++q) s += *q;
  return s;
}
double same_down(const V& v) {
  double s = 0;
  for (size_t i = v.size(); i-- > 0;) s = 2 * s + v[i];
  return s;
}
double same_down2(const V& v) {
  double s = 0;
  for (int i = static_cast<int>(v.size()) - 1; i >= 0; --i) s = 2 * s + v[i];
  return s;
}
struct Acc {
  double total = 0.0;
  size_t n = 0;
  void Add(double x) {
    total += x;
    ++n;
  }
  Acc& operator+=(double x) {
    Add(x);
    return *this;
  }
  double Mean() const { return n == 0 ? 0.0 : total / n; }
};
double same_struct(const V& v) {
  Acc acc;
  for (double d : v) acc.Add(d);
  return acc.Mean();
}
double same_struct2(const V& v) {
  Acc acc;
  for (double d : v) acc += d;
  return acc.Mean();
}
double same_lambda(const V& v, double k) {
  auto scale = [k](double x) { return k * x; };
  auto twice = [&scale](double x) { return scale(scale(x)); };
  double s = 0;
  for (double d : v) s += twice(d);
  return s;
}
double same_function(const V& v, double k) {
  std::function<double(double)> f = [k](double x) { return k * x; };
  double s = 0;
  for (double d : v) s += f(d);
  return s;
}
double same_mutable(const V& v) {
  double out = 0;
  std::ranges::for_each(v, [&out, i = 0.0](double d) mutable {
    out += i * d;
    i += 1.0;
  });
  return out;
}
double power(double x, int n) { return n == 0 ? 1.0 : x * power(x, n - 1); }
double same_recursion(double x) { return power(x, 3); }
template <typename... T>
double total(T... x) {
  return (0.0 + ... + x);
}
double same_pack(double a, double b, double c) { return total(a, b, c); }
template <typename F, typename... T>
void each(F&& f, T&&... x) {
  (f(std::forward<T>(x)), ...);
}
double same_pack2(double a, double b, double c) {
  double s = 0;
  each([&](double x) { s = 2 * s + x; }, a, b, c);
  return s;
}
template <bool Neg>
double signedOf(double x) {
  if constexpr (Neg) {
    return -x;
  } else {
    return x;
  }
}
double same_ifconstexpr(double x) { return signedOf<true>(x) - signedOf<false>(x); }
V same_insert(const V& v, const V& w) {
  V o;
  o.insert(o.end(), v.begin(), v.end());
  o.insert(o.begin(), w.begin(), w.end());
  return o;
}
V same_insert2(const V& v, double x) {
  V o = v;
  o.insert(o.begin(), x);
  return o;
}
V same_pop(const V& v, double x) {
  V o = v;
  o.push_back(x);
  o.push_back(x + 1);
  o.pop_back();
  return o;
}
V same_erase(const V& v) {
  V o = v;
  if (!o.empty()) o.erase(o.begin());
  return o;
}
V same_assign(const V& v, double x) {
  V o{x, x};
  o.assign(v.size(), x);
  return o;
}
V same_swap(V v, V w) {
  std::swap(v, w);
  return v;
}
V same_exchange(V v) {
  V o = std::exchange(v, V{});
  o.insert(o.end(), v.begin(), v.end());
  return o;
}
double same_clamp(double x) { return std::clamp(x, -1.0, 2.0); }
double same_ternary(double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
double same_comma(double x) {
  double y;
  return y = x * 2, y + 1;
}
double same_continue(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i == 0) continue;
    if (v[i] < 0) {
      s -= v[i];
      continue;
    }
    s += v[i];
  }
  return s;
}
double same_break(const V& v) {
  double s = 0;
  for (double d : v) {
    if (d < 0) break;
    s += d;
  }
  return s;
}
double same_whiletrue(const V& v) {
  double s = 0;
  size_t i = 0;
  while (true) {
    if (i >= v.size()) break;
    s += v[i++];
  }
  return s;
}
double same_nested(const V& v, const V& w) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = 0; j < w.size(); ++j) s += v[i] * w[j];
  }
  return s;
}
std::vector<V> same_outer(const V& v, const V& w) {
  std::vector<V> o(v.size(), V(w.size(), 0.0));
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = 0; j < w.size(); ++j) o[i][j] = v[i] * w[j];
  }
  return o;
}
double same_variant(double x) {
  std::variant<int, double> z{x};
  return std::visit([](auto y) { return y * 2.0; }, z);
}
double same_variant2(double x, bool b) {
  std::variant<double, P2> z;
  if (b) {
    z = P2{x, x + 1};
  } else {
    z = x;
  }
  if (auto* p = std::get_if<P2>(&z)) return p->x + p->y;
  return std::get<double>(z);
}
double same_minmaxlist(double a, double b, double c) {
  return std::max({a, b, c}) - std::min({a, b, c});
}
int same_ints(int a, int b) {
  a += b;
  a *= 3;
  a %= 7;
  return a << 1;
}
double same_static(double x) {
  static constexpr double kScale = 2.5;
  constexpr auto f = [](double y) { return kScale * y; };
  return f(x);
}
double same_indexed(const V& v) {
  double s = 0;
  size_t i = 0;
  for (const auto& d : v) {
    s += d * i;
    ++i;
  }
  return s;
}
double same_adjacent(const V& v) {
  double s = 0;
  for (auto a = v.begin(), b = a + (v.empty() ? 0 : 1); b != v.end(); ++a, ++b) s += *b - *a;
  return s;
}
double same_pointers(P2 a, P2 b, bool first) {
  P2* p = first ? &a : &b;
  p->x += 1;
  return a.x + 2 * b.x;
}
double same_refs(P2 a, P2 b, bool first) {
  P2& p = first ? a : b;
  p.x += 1;
  return a.x + 2 * b.x;
}
V same_zipped(const V& v, const V& w) {
  V o;
  o.reserve(v.size());
  auto j = w.begin();
  for (auto i = v.begin(); i != v.end() && j != w.end(); ++i, ++j) o.push_back(*i + *j);
  return o;
}
size_t same_findif(const V& v) {
  auto it = std::find_if(v.begin(), v.end(), [](double d) { return d > 1; });
  return it - v.begin();
}
double same_runlen(const std::vector<size_t>& n, const V& v) {
  double s = 0;
  for (size_t i = 0; i < n.size(); ++i) {
    for (size_t k = n[i]; k != 0; --k) s += v[i];
  }
  return s;
}
V same_runs(const std::vector<size_t>& n) {
  V o;
  size_t at = 0;
  for (size_t i = 0; i < n.size(); ++i) {
    const size_t end = at + n[i];
    for (; at < end; ++at) o.push_back(at * 10.0 + i);
  }
  return o;
}
double same_lastwins(const V& v) {
  double last = 7;
  for (double d : v) last = d;
  return last;
}
double same_prev(const V& v) {
  double s = 0, prev = 0;
  for (double d : v) {
    s += (d - prev) * (d - prev);
    prev = d;
  }
  return s;
}
bool same_flag(const V& v) {
  bool seen = false;
  for (double d : v) seen = seen || d > 1;
  return seen;
}
bool same_flag2(const V& v) {
  bool all = true;
  for (double d : v) all &= d > 1;
  return all;
}
double same_butlast(const V& v) {
  double s = 0;
  for (const double& d : v) {
    if (&d != &v.back()) s += d;
  }
  return s;
}
double same_butfirst(const V& v) {
  double s = 0;
  for (const double& d : v) {
    if (&d == &v[0]) continue;
    s += d;
  }
  return s;
}
double same_midpoint(double a, double b) { return std::isfinite(a) ? std::midpoint(a, b) : 0; }
double same_fdim(double a, double b) { return std::isnan(a) ? b : std::fdim(a, b); }
double same_signbit(double a) { return std::signbit(a) ? -a : a; }
V same_removeif(const V& v) {
  V o = v;
  o.erase(std::remove_if(o.begin(), o.end(), [](double d) { return d > 1; }), o.end());
  return o;
}
V same_eraseif(const V& v) {
  V o = v;
  std::erase_if(o, [](double d) { return d > 1; });
  return o;
}
V same_unique(const V& v) {
  V o = v;
  o.erase(std::unique(o.begin(), o.end(), [](double a, double b) { return a == b; }), o.end());
  return o;
}
V diff_unique(const V& v) {
  V o = v;
  o.erase(std::unique(o.begin(), o.end()), o.end());
  return o;
}
V diff_sort(const V& v) {
  V o = v;
  std::sort(o.begin(), o.end(), [](double a, double b) { return a < b; });
  return o;
}
double same_sortmin(const V& v) {
  V o = v;
  std::ranges::sort(o);
  return o.size() > 0 ? o[0] : 9;
}
V same_rotate(const V& v) {
  V o = v;
  if (o.size() > 1) std::rotate(o.begin(), o.begin() + 1, o.end());
  return o;
}
V diff_rotate(const V& v) {
  V o = v;
  if (o.size() > 1) std::rotate(o.begin(), o.end() - 1, o.end());
  return o;
}
bool same_adjfind(const V& v) { return std::adjacent_find(v.begin(), v.end()) != v.end(); }
double same_minof(const std::vector<P2>& v) {
  if (v.size() == 0) return 0;
  return std::min_element(v.begin(), v.end(), [](const P2& a, const P2& b) { return a.x < b.x; })->y;
}
double diff_minof(const std::vector<P2>& v) {
  if (v.size() == 0) return 0;
  return std::max_element(v.begin(), v.end(), [](const P2& a, const P2& b) { return a.x < b.x; })->y;
}
bool same_sorted(const V& v) { return std::is_sorted(v.begin(), v.end()); }
}  // namespace impl
namespace ref {
double same_views(const V& v) {
  double s = 0;
  for (size_t i = 1; i < v.size(); ++i) s += v[i];
  return s;
}
double same_reverse(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) s = 2 * s + v[v.size() - 1 - i];
  return s;
}
V same_transform(const V& v) {
  V o;
  for (double d : v) o.push_back(d + d);
  return o;
}
V same_transform2(const V& v, const V& w) {
  V o;
  for (size_t i = 0; i < v.size(); ++i) o.push_back(v[i] * w[i]);
  return o;
}
V same_viewmap(const V& v) {
  V o;
  for (size_t i = 2; i < v.size(); ++i) o.push_back(v[i] + 1);
  return o;
}
V same_iota(int n) {
  V o;
  for (int i = 0; i < n; ++i) o.push_back(i * 2.0);
  return o;
}
V same_iota2(const V& v) {
  V o;
  for (size_t i = 0; i < v.size(); ++i) o.push_back(v[v.size() - 1 - i]);
  return o;
}
double same_sum(const V& v) {
  double s = 0;
  for (double d : v) s += d;
  return s;
}
double same_reduce(const V& v) {
  double s = 0;
  for (double d : v) s += d * d;
  return s;
}
double same_dot(const V& v, const V& w) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) s += v[i] * w[i];
  return s;
}
V same_span(V v) {
  for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] + v[i];
  return v;
}
V same_span2(V v) {
  for (size_t i = 1; i < v.size(); ++i) v[i] = 0;
  return v;
}
bool same_any(const V& v) {
  for (double d : v) {
    if (d > 1) return true;
  }
  return false;
}
int same_count(const V& v) {
  int n = 0;
  for (double d : v) {
    if (d > 1) ++n;
  }
  return n;
}
V same_scan(const V& v) {
  V o;
  double s = 0;
  for (double d : v) {
    s += d;
    o.push_back(s);
  }
  return o;
}
double same_min(const V& v) {
  if (v.empty()) return 0;
  double m = v[0];
  for (size_t i = 1; i < v.size(); ++i) m = std::min(m, v[i]);
  return m;
}
double same_min2(const V& v) { return same_min(v); }
double same_proj(const std::vector<P2>& v) {
  double s = 0;
  for (auto& p : v) s += p.x;
  return s;
}
double same_proj2(const std::vector<P2>& v) { return same_proj(v); }
V same_copyif(const V& v) {
  V o;
  for (double d : v) {
    if (d > 0) o.push_back(d);
  }
  return o;
}
V same_generate(int n) {
  V o;
  for (int i = 0; i < n; ++i) o.push_back(3.0 * i);
  return o;
}
V same_ctor(const V& v) {
  V o;
  for (size_t i = 1; i < v.size(); ++i) o.push_back(v[i]);
  return o;
}
double same_first(const V& v) {
  for (double d : v) {
    if (d > 3) return d;
  }
  return -1;
}
bool same_equal(const V& v, const V& w) {
  if (v.size() != w.size()) return false;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] != w[i]) return false;
  }
  return true;
}
double diff_views(const V& v) {
  double s = 0;
  for (size_t i = 1; i < v.size(); ++i) s += v[i];
  return s;
}
V diff_span(V v) { return v; }
double diff_minmax(const V& v) { return same_min(v); }
bool diff_equal(const V& v, const V& w) { return same_equal(v, w); }
V diff_take(const V& v) {
  V o;
  for (size_t i = 0; i < v.size(); ++i) o.push_back(v[i]);
  return o;
}
std::vector<V> same_rows(const V& v, size_t n) {
  std::vector<V> o;
  for (size_t i = 0; i < v.size(); ++i) {
    V r;
    for (size_t j = 0; j < n; ++j) r.push_back(1.0);
    o.push_back(r);
  }
  return o;
}
std::vector<V> same_rows2(const V& v, size_t n) {
  std::vector<V> o;
  for (size_t i = 0; i < v.size(); ++i) {
    V r;
    for (size_t j = 0; j < n; ++j) r.push_back(v[i] * j);
    o.push_back(r);
  }
  return o;
}
std::vector<V> same_rows3(const V& v, size_t n) {
  std::vector<V> o;
  for (size_t i = 0; i < v.size(); ++i) o.push_back(V(n, v[i]));
  return o;
}
V same_while(const V& v) {
  V o;
  for (double x : v) o.push_back(x + 1);
  return o;
}

double same_switch(int m, double x) { return m == 0 ? 0 : m == 1 ? x / 2 : m == 2 ? x : -1; }
double same_dowhile(const V& v) {
  double s = 0;
  for (double d : v) s += d;
  return s;
}
double same_optional(const V& v) {
  double r = -1;
  for (double d : v) {
    if (d > 0) r = d;
  }
  return r;
}
double same_optional2(const V& v) { return same_optional(v); }
double same_tuple(double a, double b) { return (a - b) * 2 + (a + b); }
double same_tuple2(double a, double b) { return a - b; }
double same_array(double a, double b) { return a + 2 * b + 3 * a * b; }
double same_carray(double a, double b) { return a + b + a * b; }
double same_rbegin(const V& v) { return same_reverse(v); }
double same_data(const V& v) { return same_sum(v); }
double same_down(const V& v) { return same_reverse(v); }
double same_down2(const V& v) { return same_reverse(v); }
double same_struct(const V& v) { return v.size() == 0 ? 0.0 : same_sum(v) / v.size(); }
double same_struct2(const V& v) { return same_struct(v); }
double same_lambda(const V& v, double k) {
  double s = 0;
  for (double d : v) s += k * k * d;
  return s;
}
double same_function(const V& v, double k) {
  double s = 0;
  for (double d : v) s += k * d;
  return s;
}
double same_mutable(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) s += i * v[i];
  return s;
}
double same_recursion(double x) { return x * x * x; }
double same_pack(double a, double b, double c) { return a + b + c; }
double same_pack2(double a, double b, double c) { return 4 * a + 2 * b + c; }
double same_ifconstexpr(double x) { return -2 * x; }
V same_insert(const V& v, const V& w) {
  V o;
  for (double d : w) o.push_back(d);
  for (double d : v) o.push_back(d);
  return o;
}
V same_insert2(const V& v, double x) {
  V o;
  o.push_back(x);
  for (double d : v) o.push_back(d);
  return o;
}
V same_pop(const V& v, double x) {
  V o = v;
  o.push_back(x);
  return o;
}
V same_erase(const V& v) {
  V o;
  for (size_t i = 1; i < v.size(); ++i) o.push_back(v[i]);
  return o;
}
V same_assign(const V& v, double x) {
  V o;
  for (double d : v) o.push_back(x);
  return o;
}
V same_swap(V v, V w) { return w; }
V same_exchange(V v) { return v; }
double same_clamp(double x) { return x < -1 ? -1 : x > 2 ? 2 : x; }
double same_ternary(double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
double same_comma(double x) { return 2 * x + 1; }
double same_continue(const V& v) {
  double s = 0;
  for (size_t i = 1; i < v.size(); ++i) s += v[i] < 0 ? -v[i] : v[i];
  return s;
}
double same_break(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] < 0) return s;
    s += v[i];
  }
  return s;
}
double same_whiletrue(const V& v) { return same_sum(v); }
double same_nested(const V& v, const V& w) {
  double s = 0;
  for (double a : v) {
    for (double b : w) s += a * b;
  }
  return s;
}
std::vector<V> same_outer(const V& v, const V& w) {
  std::vector<V> o;
  for (double a : v) {
    V r;
    for (double b : w) r.push_back(a * b);
    o.push_back(r);
  }
  return o;
}
double same_variant(double x) { return 2 * x; }
double same_variant2(double x, bool b) { return b ? 2 * x + 1 : x; }
double same_minmaxlist(double a, double b, double c) {
  return std::max(a, std::max(b, c)) - std::min(a, std::min(b, c));
}
int same_ints(int a, int b) { return ((a + b) * 3) % 7 * 2; }
double same_static(double x) { return 2.5 * x; }
double same_indexed(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) s += i * v[i];
  return s;
}
double same_adjacent(const V& v) {
  double s = 0;
  for (size_t i = 1; i < v.size(); ++i) s += v[i] - v[i - 1];
  return s;
}
double same_pointers(P2 a, P2 b, bool first) { return first ? a.x + 1 + 2 * b.x : a.x + 2 * b.x + 2; }
double same_refs(P2 a, P2 b, bool first) { return first ? a.x + 1 + 2 * b.x : a.x + 2 * b.x + 2; }
V same_zipped(const V& v, const V& w) {
  V o;
  for (size_t i = 0; i < v.size() && i < w.size(); ++i) o.push_back(v[i] + w[i]);
  return o;
}
size_t same_findif(const V& v) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] > 1) return i;
  }
  return v.size();
}
double same_runlen(const std::vector<size_t>& n, const V& v) {
  double s = 0;
  for (size_t i = 0; i < n.size(); ++i) s += v[i] * n[i];
  return s;
}
V same_runs(const std::vector<size_t>& n) {
  V o;
  size_t at = 0;
  for (size_t i = 0; i < n.size(); ++i) {
    for (size_t k = 0; k < n[i]; ++k) o.push_back((at + k) * 10.0 + i);
    at += n[i];
  }
  return o;
}
double same_lastwins(const V& v) { return v.size() == 0 ? 7 : v[v.size() - 1]; }
double same_prev(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double d = v[i] - (i == 0 ? 0.0 : v[i - 1]);
    s += d * d;
  }
  return s;
}
bool same_flag(const V& v) {
  for (double d : v) {
    if (d > 1) return true;
  }
  return false;
}
bool same_flag2(const V& v) {
  for (double d : v) {
    if (!(d > 1)) return false;
  }
  return true;
}
double same_butlast(const V& v) {
  double s = 0;
  for (size_t i = 0; i + 1 < v.size(); ++i) s += v[i];
  return s;
}
double same_butfirst(const V& v) {
  double s = 0;
  for (size_t i = 1; i < v.size(); ++i) s += v[i];
  return s;
}
double same_midpoint(double a, double b) { return (a + b) / 2; }
double same_fdim(double a, double b) { return a > b ? a - b : 0; }
double same_signbit(double a) { return a < 0 ? -a : a; }
V same_removeif(const V& v) {
  V o;
  for (double d : v) {
    if (!(d > 1)) o.push_back(d);
  }
  return o;
}
V same_eraseif(const V& v) {
  V o;
  for (double d : v) {
    if (d > 1) continue;
    o.push_back(d);
  }
  return o;
}
V same_unique(const V& v) {
  V o;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i == 0 || v[i] != v[i - 1]) o.push_back(v[i]);
  }
  return o;
}
V diff_unique(const V& v) { return v; }
V diff_sort(const V& v) { return v; }
double same_sortmin(const V& v) {
  if (v.size() == 0) return 9;
  double m = v[0];
  for (double d : v) m = d < m ? d : m;
  return m;
}
V same_rotate(const V& v) {
  V o;
  for (size_t i = 1; i < v.size(); ++i) o.push_back(v[i]);
  if (v.size() > 0) o.push_back(v[0]);
  return o;
}
V diff_rotate(const V& v) { return same_rotate(v); }
bool same_adjfind(const V& v) {
  for (size_t i = 0; i + 1 < v.size(); ++i) {
    if (v[i] == v[i + 1]) return true;
  }
  return false;
}
double same_minof(const std::vector<P2>& v) {
  if (v.size() == 0) return 0;
  size_t m = 0;
  for (size_t i = 1; i < v.size(); ++i) {
    if (v[i].x < v[m].x) m = i;
  }
  return v[m].y;
}
double diff_minof(const std::vector<P2>& v) { return same_minof(v); }
bool same_sorted(const V& v) {
  for (size_t i = 0; i + 1 < v.size(); ++i) {
    if (v[i + 1] < v[i]) return false;
  }
  return true;
}
}  // namespace ref
