// C08: a constant translation converts to an autodiff one (explicitly).
#include "common.hpp"
namespace impl {
XY<V> coerce(double x, double y) { return xy(Translation2v{Translation2d{x, y}}); }
}
namespace ref {
XY<V> coerce(double x, double y) { return {V(x), V(y)}; }
}
