// Declaration-only model of cxx's C++ runtime header (see DESIGN.md).
#pragma once
#include <stdint.h>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace rust {
inline namespace cxxbridge1 {
class String {
 public:
  String();
  String(const std::string&);  // NOLINT
  String(const char*);         // NOLINT
  const char* data() const;
  size_t size() const;
  operator std::string() const;  // NOLINT
};
class Str {
 public:
  Str();
  Str(const String&);       // NOLINT
  Str(const std::string&);  // NOLINT
  Str(const char*);         // NOLINT
  operator std::string() const;  // NOLINT
  size_t size() const;
};
template <typename T>
class Slice {
 public:
  Slice();
  Slice(T*, size_t);
  T* begin() const;
  T* end() const;
  size_t size() const;
  T& operator[](size_t n) const;
};
template <typename T>
class Vec {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  Vec();
  Vec(std::initializer_list<T>);
  Vec(const Vec&);
  Vec(Vec&&) noexcept;
  ~Vec();
  Vec& operator=(const Vec&) &;
  Vec& operator=(Vec&&) & noexcept;
  size_t size() const noexcept;
  bool empty() const noexcept;
  const T* data() const noexcept;
  T* data() noexcept;
  size_t capacity() const noexcept;
  const T& operator[](size_t) const;
  const T& at(size_t) const;
  const T& front() const;
  const T& back() const;
  T& operator[](size_t);
  T& at(size_t);
  T& front();
  T& back();
  void reserve(size_t);
  void push_back(const T&);
  void push_back(T&&);
  template <typename... Args>
  void emplace_back(Args&&...);
  void truncate(size_t);
  void clear();
  iterator begin() noexcept;
  iterator end() noexcept;
  const_iterator begin() const noexcept;
  const_iterator end() const noexcept;
  const_iterator cbegin() const noexcept;
  const_iterator cend() const noexcept;
  void swap(Vec&) noexcept;
};
template <typename Signature>
class Fn;
template <typename Ret, typename... Args>
class Fn<Ret(Args...)> final {
 public:
  Ret operator()(Args...) const noexcept;
  Fn operator*() const noexcept;

 private:
  Ret (*trampoline)(Args..., void* fn) noexcept;
  void* fn;
};
template <typename T>
class Box;
class Error final : public std::exception {
 public:
  const char* what() const noexcept override;
};
}  // namespace cxxbridge1
}  // namespace rust
