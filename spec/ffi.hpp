// The C++ half of the Rust bindings.
#pragma once
#include "builder.hpp"
#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
namespace spec {
// The path builder inside a binding object.
trajopt::SwervePathBuilder& inner(const trajopt::rsffi::SwervePathBuilder& s);
}  // namespace spec
using Shim = trajopt::rsffi::SwervePathBuilder;
using Builder = trajopt::SwervePathBuilder;
