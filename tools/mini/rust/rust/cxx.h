// A tiny stand-in for cxx's runtime header. Only for demonstrations.
#pragma once
#include <stdint.h>
#include <algorithm>
#include <cstddef>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace rust {
template <typename T>
class Vec : public std::vector<T> {
 public:
  using std::vector<T>::vector;
};
template <typename S>
using Fn = std::function<S>;
using String = std::string;
}  // namespace rust
