// Declaration-only model of the pinned Sleipnir's public API. Nothing here is
// ever executed: it exists so that the whole of /repo type-checks.
#pragma once
#include <stdint.h>
namespace sleipnir {
enum class ExpressionType : uint8_t { kNone, kConstant, kLinear, kQuadratic, kNonlinear };
}
