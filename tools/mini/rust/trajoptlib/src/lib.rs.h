// What cxx makes of the shared structs of src/lib.rs. Only for demonstrations.
#pragma once
#include "rust/cxx.h"
namespace trajopt::rsffi {
struct SwerveModule {
  double x, y, wheel_radius, wheel_max_angular_velocity, wheel_max_torque;
};
struct SwerveDrivetrain {
  double mass, moi;
  ::rust::Vec<SwerveModule> modules;
};
struct Pose2d {
  double x, y, heading;
};
struct HolonomicTrajectorySample {
  double timestamp, x, y, heading, velocity_x, velocity_y, angular_velocity;
  ::rust::Vec<double> module_forces_x, module_forces_y;
};
struct HolonomicTrajectory {
  ::rust::Vec<HolonomicTrajectorySample> samples;
};
}  // namespace trajopt::rsffi
