// C31: what trajopt::expected promises, as scenarios. Payloads are only declared here: the analysis
// (engine/lifetimes.py) gives their special members a meaning (a label that copies and moves carry along, a
// lifetime, and, unless noexcept, the choice to throw). choose() goes both ways, claim() must hold on every path.
#include <concepts>
#include <string>
#include <type_traits>
#include <utility>

#include "trajopt/solution/SwerveSolution.hpp"
#include "trajopt/util/expected"

using trajopt::expected;
using trajopt::unexpected;

namespace probe {
// Something with a lifetime. Tag + 10 converts to Tag, Tag + 20 does so when asked to.
template <int Tag, bool NothrowCopy, bool NothrowMove>
struct Thing {
  explicit Thing(int label) noexcept(NothrowCopy);
  Thing() noexcept(NothrowCopy);
  Thing(const Thing&) noexcept(NothrowCopy);
  Thing(Thing&&) noexcept(NothrowMove);
  template <int T2, bool C2, bool M2>
    requires(T2 == Tag + 10)
  Thing(const Thing<T2, C2, M2>&) noexcept(NothrowCopy);
  template <int T2, bool C2, bool M2>
    requires(T2 == Tag + 10)
  Thing(Thing<T2, C2, M2>&&) noexcept(NothrowMove);
  template <int T2, bool C2, bool M2>
    requires(T2 == Tag + 20)
  explicit Thing(const Thing<T2, C2, M2>&) noexcept(NothrowCopy);
  template <int T2, bool C2, bool M2>
    requires(T2 == Tag + 20)
  explicit Thing(Thing<T2, C2, M2>&&) noexcept(NothrowMove);
  Thing(std::initializer_list<int>, const Thing&) noexcept(NothrowCopy);
  Thing(std::initializer_list<int>, Thing&&) noexcept(NothrowMove);
  Thing& operator=(const Thing&) noexcept(NothrowCopy);
  Thing& operator=(Thing&&) noexcept(NothrowMove);
  ~Thing();
};
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator==(const Thing<A, C, M>&, const Thing<B, D, N>&);
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator!=(const Thing<A, C, M>&, const Thing<B, D, N>&);
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator<(const Thing<A, C, M>&, const Thing<B, D, N>&);
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator<=(const Thing<A, C, M>&, const Thing<B, D, N>&);
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator>(const Thing<A, C, M>&, const Thing<B, D, N>&);
template <int A, int B, bool C, bool M, bool D, bool N>
bool operator>=(const Thing<A, C, M>&, const Thing<B, D, N>&);

using Calm = Thing<0, true, true>;    // never throws
using Text = Thing<1, false, true>;   // like a string: copies may throw, moves do not
using Wild = Thing<2, false, false>;  // everything may throw
using Calm2 = Thing<10, true, true>;  // converts to Calm
using Text2 = Thing<11, false, true>;
using Calm3 = Thing<20, true, true>;  // converts to Calm when asked to
using Text3 = Thing<21, false, true>;

struct Only {  // moves, but does not copy
  explicit Only(int label) noexcept;
  Only(Only&&) noexcept;
  Only& operator=(Only&&) noexcept;
  ~Only();
};
struct Named {  // no default constructor, made from two parts
  Named(int label, int more) noexcept;
  Named(const Named&) noexcept;
  Named(Named&&) noexcept;
  Named& operator=(const Named&) noexcept;
  Named& operator=(Named&&) noexcept;
  ~Named();
};

// A function of a payload, called with the payload in some value category. It can be called once (an rvalue).
template <class R>
struct Fun {
  template <class A>
  R operator()(A&& a) &&;
};
struct Proc {
  void operator()() &&;
  template <class A>
  void operator()(A&& a) &&;
};
template <class R>
struct Make {
  R operator()() &&;
};
// A function that has to be kept (an lvalue).
template <class R>
struct Kept {
  template <class A>
  R operator()(A&& a) const&;
  template <class A>
  R operator()(A&& a) const&& = delete;
};
struct KeptProc {
  void operator()() const&;
  void operator()() const&& = delete;
  template <class A>
  void operator()(A&& a) const&;
  template <class A>
  void operator()(A&& a) const&& = delete;
};
template <class R>
struct KeptMake {
  R operator()() const&;
  R operator()() const&& = delete;
};

bool choose();
void claim(bool);
template <class P>
bool holds(const P&, int label);  // alive, and this value
template <class P>
bool moved(const P&, int label);  // alive, and this value has been moved out of it
template <class P>
bool usable(const P&);  // alive
enum Category { lvalue, constLvalue, rvalue, constRvalue };
template <class P>
bool applied(const P&, int label, Category);  // what Fun returns for this value in this category
bool ran(int label, Category);                // Proc has been called so, once, and nothing else has been called
bool made();                                  // Make has been called once, and nothing else
template <class P>
bool isMade(const P&);  // what Make returns
bool calm();            // nothing has been called
void forget();          // from here on
}  // namespace probe
using namespace probe;

// ---------------------------------------------------------------- helpers
template <class X>
X some(bool v, int n) {
  if constexpr (std::is_void_v<typename X::value_type>) {
    return v ? X() : X(trajopt::unexpect, n);
  } else {
    if (v) return X(trajopt::in_place, n);
    return X(trajopt::unexpect, n);
  }
}

// x holds exactly a value (v) or an error, made with label n, however one looks at it
template <class X>
void is(const X& x, bool v, int n) {
  claim(x.has_value() == v);
  claim(static_cast<bool>(x) == v);
  if (v) {
    if constexpr (!std::is_void_v<typename X::value_type>) {
      claim(holds(*x, n));
      claim(holds(*x.operator->(), n));
      if constexpr (std::is_copy_constructible_v<typename X::error_type>) claim(holds(x.value(), n));
    }
  } else {
    claim(holds(x.error(), n));
  }
}
// the same kind as before, its content has been moved out
template <class X>
void left(const X& x, bool v, int n) {
  claim(x.has_value() == v);
  if (v) {
    if constexpr (!std::is_void_v<typename X::value_type>) claim(moved(*x, n));
  } else {
    claim(moved(x.error(), n));
  }
}
// one of the two, whatever it is
template <class X>
void intact(const X& x) {
  if (x.has_value()) {
    if constexpr (!std::is_void_v<typename X::value_type>) claim(usable(*x));
  } else {
    claim(usable(x.error()));
  }
}
template <class X>
constexpr bool copies = std::is_copy_constructible_v<X>;

// ---------------------------------------------------------------- functions that return results
template <class R>
struct ThenMake {
  bool good;
  R operator()() && { return good ? R(Make<Calm>{}()) : R(trajopt::unexpect, 7); }
};
template <class R>
struct KeptThenMake {
  bool good;
  R operator()() const& { return good ? R(Make<Calm>{}()) : R(trajopt::unexpect, 7); }
  R operator()() const&& = delete;
};
template <class R>
struct Then {
  bool good;
  template <class A>
  R operator()(A&& a) && {
    return good ? R(Fun<Calm>{}(std::forward<A>(a))) : R(trajopt::unexpect, 7);
  }
};
template <class R>
struct KeptThen {
  bool good;
  template <class A>
  R operator()(A&& a) const& {
    return good ? R(Fun<Calm>{}(std::forward<A>(a))) : R(trajopt::unexpect, 7);
  }
  template <class A>
  R operator()(A&& a) const&& = delete;
};
template <class X>
struct Instead {
  bool good;
  template <class A>
  X operator()(A&& a) && {
    Proc{}(std::forward<A>(a));
    return some<X>(good, 7);
  }
};
template <class X>
struct KeptInstead {
  bool good;
  template <class A>
  X operator()(A&& a) const& {
    Proc{}(std::forward<A>(a));
    return some<X>(good, 7);
  }
  template <class A>
  X operator()(A&& a) const&& = delete;
};
struct Note {
  template <class A>
  void operator()(A&& a) && {
    Proc{}(a);
  }
};
struct KeptNote {
  template <class A>
  void operator()(A&& a) const& {
    Proc{}(a);
  }
  template <class A>
  void operator()(A&& a) const&& = delete;
};

// ---------------------------------------------------------------- scenarios
namespace scenario {

template <class T, class E>
struct S {
  using X = expected<T, E>;
  static constexpr bool isVoid = std::is_void_v<T>;
  // moving neither payload throws
  static constexpr bool quiet =
      (isVoid || std::is_nothrow_move_constructible_v<T>) && std::is_nothrow_move_constructible_v<E>;

  static void made_in_place() {
    bool v = choose();
    X x = some<X>(v, 1);
    is(x, v, 1);
  }
  static void made_by_default() {
    if constexpr (std::is_default_constructible_v<X>) {
      X x;
      claim(x.has_value());
      if constexpr (!isVoid) claim(usable(*x));
    }
  }
  static void made_from_value() {
    if constexpr (!isVoid) {
      T t(1);
      if constexpr (copies<T>) {
        const T& c = t;
        X x = c;
        is(x, true, 1);
        claim(holds(t, 1));
      }
      X y = std::move(t);
      is(y, true, 1);
      claim(std::is_scalar_v<T> || moved(t, 1));
    }
  }
  static void made_from_unexpected() {
    unexpected<E> u(1);
    if constexpr (copies<E>) {
      const unexpected<E>& c = u;
      X x = c;
      is(x, false, 1);
      claim(holds(u.value(), 1));
      is(X(c), false, 1);
    }
    X y = std::move(u);
    is(y, false, 1);
    claim(std::is_scalar_v<E> || moved(u.value(), 1));
  }
  static void made_from_a_list() {
    if constexpr (requires(T & t) { T({1, 2}, t); }) {
      T t(1);
      X x(trajopt::in_place, {1, 2}, t);
      is(x, true, 1);
      claim(holds(t, 1));
      X y(trajopt::in_place, {1, 2}, std::move(t));
      is(y, true, 1);
      claim(moved(t, 1));
    }
    if constexpr (requires(E & e) { E({1, 2}, e); }) {
      E e(1);
      X x(trajopt::unexpect, {1, 2}, e);
      is(x, false, 1);
      claim(holds(e, 1));
      X y(trajopt::unexpect, {1, 2}, std::move(e));
      is(y, false, 1);
      claim(moved(e, 1));
    }
  }
  static void emplaced_from_a_list() {
    if constexpr (requires(T & t) { T({1, 2}, t); }) {
      bool v = std::is_nothrow_move_constructible_v<E> ? choose() : true;
      X x = some<X>(v, 1);
      T t(2);
      bool m = choose();
      try {
        if (m) {
          x.emplace({1, 2}, std::move(t));
          claim(moved(t, 2));
        } else {
          x.emplace({1, 2}, t);
          claim(holds(t, 2));
        }
        is(x, true, 2);
      } catch (...) {
        intact(x);
        if (!v) is(x, false, 1);
      }
    }
  }
  static void copied() {
    if constexpr (copies<X>) {
      bool v = choose();
      X x = some<X>(v, 1);
      X y = x;
      is(y, v, 1);
      is(x, v, 1);
    }
  }
  static void moved_from() {
    bool v = choose();
    X x = some<X>(v, 1);
    X y = std::move(x);
    is(y, v, 1);
    if (!std::is_trivially_move_constructible_v<X>) {
      if (!(v ? isVoid || std::is_scalar_v<T> : std::is_scalar_v<E>)) left(x, v, 1);
    } else {
      is(x, v, 1);
    }
  }
  static void copy_assigned() {
    if constexpr (std::is_copy_assignable_v<X>) {
      bool v = choose();
      bool w = choose();
      X x = some<X>(v, 1);
      X y = some<X>(w, 2);
      try {
        X& r = (x = y);
        claim(&r == &x);
        is(x, w, 2);
      } catch (...) {
        intact(x);
        if (v != w && quiet) is(x, v, 1);
      }
      is(y, w, 2);
    }
  }
  static void move_assigned() {
    if constexpr (std::is_move_assignable_v<X>) {
      bool v = choose();
      bool w = choose();
      X x = some<X>(v, 1);
      X y = some<X>(w, 2);
      try {
        X& r = (x = std::move(y));
        claim(&r == &x);
        is(x, w, 2);
        intact(y);
        claim(y.has_value() == w);
      } catch (...) {
        intact(x);
        intact(y);
      }
    }
  }
  static void assigned_to_itself() {
    if constexpr (std::is_copy_assignable_v<X>) {
      bool v = choose();
      X x = some<X>(v, 1);
      const X& y = x;
      try {
        x = y;
        is(x, v, 1);
      } catch (...) {
        intact(x);
      }
    }
  }
  static void value_assigned() {
    if constexpr (!isVoid) {
      bool v = choose();
      X x = some<X>(v, 1);
      T t(2);
      if constexpr (std::is_assignable_v<X&, const T&>) {
        const T& c = t;
        try {
          X& r = (x = c);
          claim(&r == &x);
          is(x, true, 2);
        } catch (...) {
          intact(x);
          if (!v && quiet) is(x, false, 1);
        }
        claim(holds(t, 2));
      }
    }
  }
  static void value_moved_in() {
    if constexpr (!isVoid) {
      if constexpr (std::is_assignable_v<X&, T&&>) {
        bool v = choose();
        X x = some<X>(v, 1);
        T t(2);
        try {
          x = std::move(t);
          is(x, true, 2);
          claim(std::is_scalar_v<T> || moved(t, 2));
        } catch (...) {
          intact(x);
        }
      }
    }
  }
  static void error_assigned() {
    if constexpr (std::is_assignable_v<X&, const unexpected<E>&>) {
      bool v = choose();
      X x = some<X>(v, 1);
      unexpected<E> u(2);
      const unexpected<E>& c = u;
      try {
        X& r = (x = c);
        claim(&r == &x);
        is(x, false, 2);
      } catch (...) {
        intact(x);
      }
      claim(holds(u.value(), 2));
    }
  }
  static void error_moved_in() {
    if constexpr (std::is_assignable_v<X&, unexpected<E>&&>) {
      bool v = choose();
      X x = some<X>(v, 1);
      unexpected<E> u(2);
      try {
        x = std::move(u);
        is(x, false, 2);
        claim(std::is_scalar_v<E> || moved(u.value(), 2));
      } catch (...) {
        intact(x);
      }
    }
  }
  static void emplaced() {
    if constexpr (!isVoid) {
      // an error can be put back only if moving it does not throw
      bool v = std::is_nothrow_move_constructible_v<E> ? choose() : true;
      X x = some<X>(v, 1);
      try {
        x.emplace(2);
        is(x, true, 2);
      } catch (...) {
        intact(x);
        if (!v) is(x, false, 1);
      }
    }
  }
  static void swapped() {
    if constexpr (isVoid || std::is_nothrow_move_constructible_v<T> || std::is_nothrow_move_constructible_v<E>) {
      bool v = choose();
      bool w = choose();
      X x = some<X>(v, 1);
      X y = some<X>(w, 2);
      try {
        if constexpr (requires(X& a, X& b) { a.swap(b); }) {
          if (choose()) {
            x.swap(y);
          } else {
            swap(x, y);
          }
        } else {
          using std::swap;
          swap(x, y);
        }
        is(x, w, 2);
        is(y, v, 1);
      } catch (...) {
        intact(x);
        intact(y);
      }
    }
  }
  static void read() {
    if constexpr (!isVoid) {
      X x = some<X>(true, 1);
      const X& c = x;
      claim(&*c == &*x);
      claim(x.operator->() == &*x);
      claim(c.operator->() == &*x);
      T&& m = *std::move(x);
      claim(&m == &*x);
      if constexpr (copies<E>) {
        claim(&x.value() == &*x);
        claim(&c.value() == &*x);
        T&& n = std::move(x).value();
        claim(&n == &*x);
        const T&& p = std::move(c).value();
        claim(&p == &*x);
      }
      const T&& q = *std::move(c);
      claim(&q == &*x);
      claim(holds(*x, 1));
    }
    X y = some<X>(false, 2);
    const X& d = y;
    claim(&d.error() == &y.error());
    E&& e = std::move(y).error();
    claim(&e == &y.error());
    const E&& f = std::move(d).error();
    claim(&f == &y.error());
    claim(holds(y.error(), 2));
  }
  static void refused() {
    if constexpr (!isVoid && copies<E>) {
      X x = some<X>(false, 1);
      const X& c = x;
      int caught = 0;
      try {
        (void)x.value();
        caught = 5;
      } catch (const trajopt::bad_expected_access<E>& e) {
        claim(holds(e.error(), 1));
        ++caught;
      }
      try {
        (void)c.value();
        caught = 5;
      } catch (const trajopt::bad_expected_access<E>& e) {
        claim(holds(e.error(), 1));
        ++caught;
      }
      try {
        (void)std::move(c).value();
        caught = 5;
      } catch (const trajopt::bad_expected_access<E>& e) {
        claim(holds(e.error(), 1));
        ++caught;
      }
      try {
        (void)std::move(x).value();
        caught = 5;
      } catch (const trajopt::bad_expected_access<E>& e) {
        claim(holds(e.error(), 1));
        ++caught;
      }
      claim(caught == 4);
    }
  }
  static void or_other() {
    if constexpr (!isVoid) {
      bool v = choose();
      X x = some<X>(v, 1);
      if constexpr (copies<T>) {
        T t = x.value_or(T(2));
        claim(holds(t, v ? 1 : 2));
        is(x, v, 1);
      }
      T s = std::move(x).value_or(T(3));
      claim(holds(s, v ? 1 : 3));
      claim(x.has_value() == v);
      if (v) {
        claim(std::is_scalar_v<T> || moved(*x, 1));
      } else {
        claim(holds(x.error(), 1));
      }
    }
  }

  // ------------------------------------------------------------ functions of what is held
  // the call op(x) for the four value categories of x; check gets the category
  // when x is an rvalue, its value (its error, when kept is false) is moved on to the result
  template <class Op, class Check>
  static void each_way(bool kept, Op op, Check check) {
    bool v = choose();
    X x = some<X>(v, 1);
    const X& c = x;
    forget();
    int way = choose() ? (choose() ? 0 : 1) : (choose() ? 2 : 3);
    try {
      if (way == 0) {
        check(op(x), v, lvalue);
      } else if (way == 1) {
        check(op(c), v, constLvalue);
      } else if (way == 2) {
        check(op(std::move(x)), v, rvalue);
      } else {
        check(op(std::move(c)), v, constRvalue);
      }
      claim(x.has_value() == v);
      if (way != 2) {
        is(x, v, 1);
      } else if (v == kept && !(v ? isVoid || std::is_scalar_v<T> : std::is_scalar_v<E>)) {
        left(x, v, 1);
      }
    } catch (...) {
      claim(x.has_value() == v);
      intact(x);
    }
  }
  static void mapped() {
    if constexpr (copies<E>) {
      if constexpr (isVoid) {
        auto check = [](const auto& r, bool v, Category) {
          claim(r.has_value() == v);
          if (v) {
            claim(isMade(*r) && probe::made());
          } else {
            claim(holds(r.error(), 1) && calm());
          }
        };
        if (choose()) {
          each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).map(Make<Calm>{}); }, check);
        } else if (choose()) {
          each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).transform(Make<Text>{}); }, check);
        } else if (choose()) {
          KeptMake<Text> f;
          each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).map(f); }, check);
        } else {
          KeptMake<Calm> f;
          each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).transform(f); }, check);
        }
      } else {
        auto check = [](const auto& r, bool v, Category k) {
          claim(r.has_value() == v);
          if (v) {
            claim(applied(*r, 1, k) && ran(1, k));
          } else {
            claim(holds(r.error(), 1) && calm());
          }
        };
        if (choose()) {
          each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).map(Fun<Calm>{}); }, check);
        } else if (choose()) {
          each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).transform(Fun<Text>{}); }, check);
        } else if (choose()) {
          each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).map(Fun<int>{}); }, check);
        } else if (choose()) {
          Kept<Text> f;
          each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).map(f); }, check);
        } else {
          Kept<Calm> f;
          each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).transform(f); }, check);
        }
      }
    }
  }
  static void mapped_to_nothing() {
    if constexpr (copies<E> && !isVoid) {
      auto check = [](const auto& r, bool v, Category k) {
        claim(r.has_value() == v);
        if (v) {
          claim(ran(1, k));
        } else {
          claim(holds(r.error(), 1) && calm());
        }
      };
      if (choose()) {
        each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).map(Proc{}); }, check);
      } else if (choose()) {
        each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).transform(Proc{}); }, check);
      } else {
        KeptProc f;
        each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).map(f); }, check);
      }
    }
  }
  static void error_mapped_to_nothing() {
    if constexpr (isVoid || copies<T>) {
      auto check = [](const auto& r, bool v, Category k) {
        claim(r.has_value() == v);
        if (v) {
          if constexpr (!isVoid) claim(holds(*r, 1));
          claim(calm());
        } else {
          claim(ran(1, k));
        }
      };
      if (choose()) {
        each_way(true, [](auto&& x) { return std::forward<decltype(x)>(x).map_error(Proc{}); }, check);
      } else if (choose()) {
        each_way(true, [](auto&& x) { return std::forward<decltype(x)>(x).transform_error(Proc{}); }, check);
      } else {
        KeptProc f;
        each_way(true, [&](auto&& x) { return std::forward<decltype(x)>(x).map_error(f); }, check);
      }
    }
  }
  static void nothing_mapped_to_nothing() {
    if constexpr (copies<E> && isVoid) {
      auto check = [](const auto& r, bool v, Category) {
        claim(r.has_value() == v);
        if (v) {
          claim(probe::made());
        } else {
          claim(holds(r.error(), 1) && calm());
        }
      };
      if (choose()) {
        each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).map(Proc{}); }, check);
      } else if (choose()) {
        each_way(false, [](auto&& x) { return std::forward<decltype(x)>(x).transform(Proc{}); }, check);
      } else {
        KeptProc f;
        each_way(false, [&](auto&& x) { return std::forward<decltype(x)>(x).map(f); }, check);
      }
    }
  }
  static void error_mapped() {
    if constexpr (isVoid || copies<T>) {
      auto check = [](const auto& r, bool v, Category k) {
        claim(r.has_value() == v);
        if (v) {
          if constexpr (!isVoid) claim(holds(*r, 1));
          claim(calm());
        } else {
          claim(applied(r.error(), 1, k) && ran(1, k));
        }
      };
      if (choose()) {
        each_way(true, [](auto&& x) { return std::forward<decltype(x)>(x).map_error(Fun<Calm>{}); }, check);
      } else if (choose()) {
        each_way(true, [](auto&& x) { return std::forward<decltype(x)>(x).transform_error(Fun<Text>{}); }, check);
      } else if (choose()) {
        each_way(true, [](auto&& x) { return std::forward<decltype(x)>(x).map_error(Fun<int>{}); }, check);
      } else if (choose()) {
        Kept<Text> f;
        each_way(true, [&](auto&& x) { return std::forward<decltype(x)>(x).map_error(f); }, check);
      } else {
        Kept<Calm> f;
        each_way(true, [&](auto&& x) { return std::forward<decltype(x)>(x).transform_error(f); }, check);
      }
    }
  }
  static void chained() {
    if constexpr (copies<E>) {
      bool good = choose();
      using R = expected<Calm, E>;
      if constexpr (isVoid) {
        bool once = choose();
        each_way(false,
                 [=](auto&& x) {
                   ThenMake<R> f{good};
                   KeptThenMake<R> g{good};
                   return once ? std::forward<decltype(x)>(x).and_then(std::move(f))
                               : std::forward<decltype(x)>(x).and_then(g);
                 },
                 [good](const R& r, bool v, Category) {
                   if (v && good) {
                     claim(r.has_value() && isMade(*r) && probe::made());
                   } else {
                     claim(calm());
                     is(r, false, v ? 7 : 1);
                   }
                 });
      } else {
        bool once = choose();
        each_way(false,
                 [=](auto&& x) {
                   Then<R> f{good};
                   KeptThen<R> g{good};
                   return once ? std::forward<decltype(x)>(x).and_then(std::move(f))
                               : std::forward<decltype(x)>(x).and_then(g);
                 },
                 [good](const R& r, bool v, Category k) {
                   if (v && good) {
                     claim(r.has_value() && applied(*r, 1, k) && ran(1, k));
                   } else {
                     claim(calm());
                     is(r, false, v ? 7 : 1);
                   }
                 });
      }
    }
  }
  static void otherwise() {
    if constexpr (copies<X>) {
      bool good = choose();
      bool once = choose();
      each_way(true,
               [=](auto&& x) -> X {
                 Instead<X> f{good};
                 KeptInstead<X> g{good};
                 return once ? std::forward<decltype(x)>(x).or_else(std::move(f))
                             : std::forward<decltype(x)>(x).or_else(g);
               },
               [good](const X& r, bool v, Category k) {
                 if (v) {
                   claim(calm());
                   is(r, true, 1);
                 } else {
                   claim(ran(1, k));
                   is(r, good, 7);
                 }
               });
    }
  }
  static void noted() {
    if constexpr (copies<X>) {
      bool once = choose();
      each_way(true,
               [=](auto&& x) -> X {
                 Note f;
                 KeptNote g;
                 return once ? std::forward<decltype(x)>(x).or_else(std::move(f))
                             : std::forward<decltype(x)>(x).or_else(g);
               },
               [](const X& r, bool v, Category) {
                 if (v) {
                   claim(calm());
                 } else {
                   claim(!calm());
                 }
                 is(r, v, 1);
               });
    }
  }

  // ------------------------------------------------------------ comparisons
  static void compared() {
    if constexpr (copies<X>) {
      bool v = choose();
      bool w = choose();
      X x = some<X>(v, 1);
      X y = some<X>(w, 2);
      if (v != w) {
        claim(!(x == y));
        claim(x != y);
      } else if (v) {
        if constexpr (isVoid) {
          claim(x == y);
          claim(!(x != y));
        } else {
          bool same = *x == *y;
          claim((x == y) == same);
          claim((x != y) == !same);
        }
      } else {
        bool same = x.error() == y.error();
        claim((x == y) == same);
        claim((x != y) == !same);
      }
      claim(x == x);
      claim(!(x != x));
      is(x, v, 1);
      is(y, w, 2);
    }
  }
  static void compared_to_parts() {
    if constexpr (copies<X>) {
      bool v = choose();
      X x = some<X>(v, 1);
      unexpected<E> u(2);
      bool e = !v && x.error() == u.value();
      claim((x == u) == e);
      claim((u == x) == e);
      claim((x != u) == !e);
      claim((u != x) == !e);
      if constexpr (!isVoid) {
        T t(3);
        bool s = v && *x == t;
        claim((x == t) == s);
        claim((t == x) == s);
        claim((x != t) == !s);
        claim((t != x) == !s);
      }
    }
  }
};

// ---------------------------------------------------------------- converting
template <class T, class E, class U, class G>
struct From {
  using X = expected<T, E>;
  using Y = expected<U, G>;
  static void copied() {
    bool v = choose();
    Y y = some<Y>(v, 1);
    const Y& c = y;
    X x = c;
    is(x, v, 1);
    is(y, v, 1);
  }
  static void moved_from() {
    bool v = choose();
    Y y = some<Y>(v, 1);
    X x = std::move(y);
    is(x, v, 1);
    claim(y.has_value() == v);
    if (!(v ? std::is_scalar_v<U> : std::is_scalar_v<G>)) left(y, v, 1);
  }
  static void from_parts() {
    U u(1);
    const U& cu = u;
    X x = cu;
    is(x, true, 1);
    X y = std::move(u);
    is(y, true, 1);
    claim(std::is_scalar_v<U> || moved(u, 1));
    unexpected<G> e(2);
    const unexpected<G>& ce = e;
    X z = ce;
    is(z, false, 2);
    X w = std::move(e);
    is(w, false, 2);
    claim(std::is_scalar_v<G> || moved(e.value(), 2));
  }
  static void value_assigned() {
    bool v = choose();
    X x = some<X>(v, 1);
    U u(2);
    try {
      if (choose()) {
        x = static_cast<const U&>(u);
        claim(holds(u, 2));
      } else {
        x = std::move(u);
      }
      is(x, true, 2);
    } catch (...) {
      intact(x);
    }
  }
  static void assigned() {
    bool v = choose();
    bool w = choose();
    Y y = some<Y>(v, 1);
    X x = some<X>(w, 2);
    try {
      if (choose()) {
        x = y;
        is(y, v, 1);
      } else {
        x = std::move(y);
        claim(y.has_value() == v);
        if (!(v ? std::is_scalar_v<U> : std::is_scalar_v<G>)) left(y, v, 1);
      }
      is(x, v, 1);
    } catch (...) {
      intact(x);
      intact(y);
    }
  }
};

// only when asked to
template <class T, class E, class U, class G>
struct Asked {
  using X = expected<T, E>;
  using Y = expected<U, G>;
  static void converted() {
    static_assert(!std::is_convertible_v<Y, X> && !std::is_convertible_v<const Y&, X>,
                  "a result converts silently only if both of its parts do");
    bool v = choose();
    Y y = some<Y>(v, 1);
    X x(static_cast<const Y&>(y));
    is(x, v, 1);
    is(y, v, 1);
    X z(std::move(y));
    is(z, v, 1);
    claim(y.has_value() == v);
    left(y, v, 1);
  }
  static void from_parts() {
    static_assert(std::is_convertible_v<U, X> == std::is_convertible_v<U, T> &&
                      std::is_convertible_v<unexpected<G>, X> == std::is_convertible_v<G, E>,
                  "a part converts silently to a result only if it does to the part of the result");
    U u(1);
    X x(static_cast<const U&>(u));
    is(x, true, 1);
    claim(holds(u, 1));
    X y(std::move(u));
    is(y, true, 1);
    claim(moved(u, 1));
    unexpected<G> e(2);
    X z(static_cast<const unexpected<G>&>(e));
    is(z, false, 2);
    claim(holds(e.value(), 2));
    X w(std::move(e));
    is(w, false, 2);
    claim(moved(e.value(), 2));
  }
};

// ---------------------------------------------------------------- the parts
template <class E>
struct Parts {
  using U = unexpected<E>;
  static void built() {
    E e(1);
    if constexpr (copies<E>) {
      const E& c = e;
      U u(c);
      claim(holds(u.value(), 1) && holds(e, 1));
      U v = u;
      claim(holds(v.value(), 1) && holds(u.value(), 1));
      auto w = trajopt::make_unexpected(c);
      static_assert(std::is_same_v<decltype(w), U>);
      claim(holds(w.value(), 1) && holds(e, 1));
    }
    U u(std::move(e));
    claim(holds(u.value(), 1) && (std::is_scalar_v<E> || moved(e, 1)));
    const U& c = u;
    claim(&c.value() == &u.value());
    E&& m = std::move(u).value();
    claim(&m == &u.value());
    const E&& n = std::move(c).value();
    claim(&n == &u.value());
    auto w = trajopt::make_unexpected(std::move(u.value()));
    claim(holds(w.value(), 1));
  }
  static void compared() {
    if constexpr (copies<E>) {
      U u(1);
      U v(2);
      claim((u == v) == (u.value() == v.value()));
      claim((u != v) == (u.value() != v.value()));
      claim((u < v) == (u.value() < v.value()));
      claim((u <= v) == (u.value() <= v.value()));
      claim((u > v) == (u.value() > v.value()));
      claim((u >= v) == (u.value() >= v.value()));
      claim((v < u) == (v.value() < u.value()));
      claim((v <= u) == (v.value() <= u.value()));
    }
  }
  static void thrown() {
    E e(1);
    trajopt::bad_expected_access<E> b(std::move(e));
    const auto& c = b;
    claim(holds(b.error(), 1));
    claim(&c.error() == &b.error());
    E&& m = std::move(b).error();
    claim(&m == &b.error());
    const E&& n = std::move(c).error();
    claim(&n == &b.error());
  }
};

struct Other {
  // from several arguments
  static void made_of_two() {
    using X = expected<Named, int>;
    X x(trajopt::in_place, 1, 5);
    claim(x.has_value() && holds(*x, 1));
    x = unexpected<int>(3);
    claim(!x.has_value() && holds(x.error(), 3));
    x.emplace(2, 6);
    claim(x.has_value() && holds(*x, 2));
    x.emplace(4, 6);
    claim(x.has_value() && holds(*x, 4));
    expected<int, Named> y(trajopt::unexpect, 1, 5);
    claim(!y.has_value() && holds(y.error(), 1));
    unexpected<Named> u(7, 8);
    claim(holds(u.value(), 7));
  }
  // as Generate() and its callers use it
  static expected<Text, Text> generate(bool good) {
    if (good) {
      return Text(1);
    }
    return unexpected{Text(2)};
  }
  static void returned() {
    bool good = choose();
    auto r = generate(good);
    is(r, good, good ? 1 : 2);
    if (r) {
      Text t = std::move(r.value());
      claim(holds(t, 1));
    } else {
      Text e = r.error();
      claim(holds(e, 2));
    }
  }
  static void passed_on() {
    bool good = choose();
    expected<Text, Text> r = generate(choose());
    r = generate(good);
    is(r, good, good ? 1 : 2);
    expected<Text, Text> s = std::move(r);
    is(s, good, good ? 1 : 2);
  }
};

template struct S<Calm, Calm>;
template struct S<Text, Text>;
template struct S<Wild, Calm>;
template struct S<Calm, Wild>;
template struct S<Wild, Text>;
template struct S<Text, Wild>;
template struct S<Wild, Wild>;
template struct S<int, int>;
template struct S<int, Text>;
template struct S<Text, int>;
template struct S<Wild, int>;
template struct S<int, Wild>;
template struct S<Only, Calm>;
template struct S<Calm, Only>;
template struct S<Wild, Only>;
template struct S<Only, Only>;
template struct S<void, int>;
template struct S<void, Calm>;
template struct S<void, Text>;
template struct S<void, Wild>;
template struct From<Calm, Text, Calm2, Text2>;
template struct From<Text, Calm, Text2, Calm2>;
template struct From<Text, int, Text2, int>;
template struct From<int, Text, int, Text2>;
template struct Asked<Calm, Text, Calm3, Text3>;
template struct Asked<Text, Calm, Text3, Calm2>;
template struct Asked<Text, Calm, Text2, Calm3>;
template struct Parts<Calm>;
template struct Parts<Text>;
template struct Parts<Wild>;
template struct Parts<Only>;
template struct Parts<int>;
}  // namespace scenario

// ---------------------------------------------------------------- what a result type allows
#define SAME(a, b) static_assert(std::is_same_v<a, b>)
template <class T, class E>
constexpr bool rules() {
  using X = expected<T, E>;
  constexpr bool cc = std::is_copy_constructible_v<T> && std::is_copy_constructible_v<E>;
  constexpr bool mc = std::is_move_constructible_v<T> && std::is_move_constructible_v<E>;
  static_assert(std::is_copy_constructible_v<X> == cc, "a result copies exactly when both of its parts do");
  static_assert(std::is_move_constructible_v<X> == mc, "a result moves exactly when both of its parts do");
  static_assert(std::is_copy_assignable_v<X> == (cc && std::is_copy_assignable_v<T> && std::is_copy_assignable_v<E>),
                "a result is copy-assigned exactly when both of its parts are");
  static_assert(std::is_move_assignable_v<X> == (mc && std::is_move_assignable_v<T> && std::is_move_assignable_v<E>),
                "a result is move-assigned exactly when both of its parts are");
  static_assert(std::is_default_constructible_v<X> == std::is_default_constructible_v<T>,
                "a result has a default exactly when values do");
  static_assert(std::is_trivially_destructible_v<X> ==
                    (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<E>),
                "a result needs destruction exactly when one of its parts does");
  static_assert(!std::is_convertible_v<X, bool>, "a result is not taken for a number");
  SAME(decltype(*std::declval<X&>()), T&);
  SAME(decltype(*std::declval<const X&>()), const T&);
  SAME(decltype(*std::declval<X&&>()), T&&);
  SAME(decltype(*std::declval<const X&&>()), const T&&);
  if constexpr (std::is_copy_constructible_v<E>) {
    SAME(decltype(std::declval<X&>().value()), T&);
    SAME(decltype(std::declval<const X&>().value()), const T&);
    SAME(decltype(std::declval<X&&>().value()), T&&);
    SAME(decltype(std::declval<const X&&>().value()), const T&&);
  }
  SAME(decltype(std::declval<X&>().error()), E&);
  SAME(decltype(std::declval<const X&>().error()), const E&);
  SAME(decltype(std::declval<X&&>().error()), E&&);
  SAME(decltype(std::declval<const X&&>().error()), const E&&);
  SAME(typename X::value_type, T);
  SAME(typename X::error_type, E);
  return true;
}
static_assert(rules<Calm, Calm>() && rules<Text, Text>() && rules<Wild, int>() && rules<int, Wild>() && rules<int, int>());
static_assert(rules<Only, Calm>() && rules<Calm, Only>() && rules<Named, int>());
static_assert(rules<trajopt::SwerveSolution, std::string>());
static_assert(std::is_nothrow_move_constructible_v<expected<trajopt::SwerveSolution, std::string>>);
