SOLVER = ('the solver cannot be built or run by the test suite here, and a test samples a few paths; the problem handed to it '
          'must be right for every path')
prop('C13', 'Total time is minimised over non-negative time steps the robot can follow',
     'The objective is the sum over all segments of the number of control intervals times the time step of the segment. Every '
     'time step is non-negative and so short that no wheel rolls further in it than the narrowest gap between modules listed '
     'next to each other.',
     ['inputs'], 'every path, every list of counts, every drivetrain',
     SOLVER, [G], [('SwerveTrajectoryGenerator (minWidth, T_tot)', G)])
prop('C14', 'Consecutive samples follow from each other by implicit Euler steps',
     'For every control interval of every segment, position, velocity and angular velocity at a sample are those at the sample '
     'before plus the time step of that segment times the rates at the sample itself. The heading turns by the time step times '
     'the angular velocity, across segment borders too.',
     ['inputs'], 'every path, every list of counts, every sample', SOLVER,
     [G, UT, GEO + 'Rotation2.hpp'], [('SwerveTrajectoryGenerator (kinematics)', G)])
prop('C15', 'Module forces accelerate and turn the robot by the laws of Newton',
     'At every sample the module forces add up to mass times acceleration, and their torques about the robot center, with the '
     'module positions turned to the field, to the moment of inertia times the angular acceleration.',
     ['inputs'], 'every path, every drivetrain and number of modules, every sample', SOLVER,
     [G], [('SwerveTrajectoryGenerator (dynamics)', G)])
prop('C16', 'No module is asked to roll faster or push harder than it can',
     'At every sample the speed of each module over the ground is at most its wheel radius times its maximum angular velocity. '
     'At every sample the force of each module is at most its maximum torque divided by its wheel radius.',
     ['inputs'], 'every path, every drivetrain and number of modules, every sample', SOLVER,
     [G], [('SwerveTrajectoryGenerator (module limits)', G)])
prop('C17', 'Constraints hold at their waypoint and at every sample of their segment',
     'Every waypoint constraint is applied to the state at the last sample of the segment that ends at its waypoint (the first '
     'sample for the first waypoint). Every segment constraint is applied to the state at every sample of its segment.',
     ['inputs'], 'every path, every list of counts, every list of constraints', SOLVER,
     [G, UT], [('SwerveTrajectoryGenerator (waypointConstraints, segmentConstraints)', G)])
prop('C18', 'Nothing else constrains the trajectory',
     'Every relation handed to the solver is one of: non-negative and short enough time steps, the Euler steps, the equations of motion, '
     'the module limits, or a constraint of the path at one of its samples. So no admissible trajectory is excluded.',
     ['inputs'], 'every path, every list of counts, every drivetrain', SOLVER,
     [G], [('SwerveTrajectoryGenerator', G)])
prop('C19', 'The solver starts from the initial guess and its finite differences',
     'Positions and headings start on the initial guess; velocities and accelerations start on the finite differences of the '
     'guess, zero at the first sample. Time steps start at five seconds per segment shared by its control intervals and forces '
     'start at zero.',
     ['inputs'], 'every path, every list of counts, every initial guess', SOLVER,
     [G], [('ApplyInitialGuess', G)])
prop('C20', 'Generate returns the values the solver ended on, or says why there are none',
     'When the solver fails or is stopped, Generate returns its message. Otherwise it returns a solution with, sample by sample, '
     'the final values of the variables that the problem is about. The solver gets tolerance 1e-4 and the diagnostics asked for.',
     ['inputs', 'faults'], 'every path and every exit condition of the solver',
     'exit conditions depend on the solver; tests cannot drive it into each of them',
     [G], [('Generate, ConstructSwerveSolution', G)])
prop('C21', 'A cancel request stops the solver at its next iteration',
     'Generating starts uncancelled. In every iteration the solver is told to stop if, and only if, cancelling was requested.',
     ['schedules', 'inputs'], 'every moment at which cancelling may be requested, every path',
     'the request races with the solver; a test sees one interleaving, if any',
     [G, CA, FF], [('Generate', G), ('GetCancellationFlag', CA)])
prop('C22', 'Progress callbacks get the current solution and handle, in order',
     'During solving, every callback of the path is called in the order added with a solution made of the current values and '
     'the handle of the generator, at most sixty times a second. No iteration is reported otherwise.',
     ['inputs', 'schedules'], 'every path, every list of callbacks, every timing of iterations',
     'depends on the clock and on solver iterations, neither of which tests control',
     [G], [('SwerveTrajectoryGenerator (callbacks)', G), ('Generate', G)])
prop('C23', 'Generators are independent of each other and of their builder',
     'A generator works on the path as it was when the generator was made: later calls on the builder, and other generators, do '
     'not change what it solves, starts from or reports, and making or running one changes neither the builder nor other '
     'generators. No two generators made from builders share an object that can change, except the cancel flag, and one that '
     'was copied or moved from another works when the other is gone.',
     ['histories', 'schedules', 'inputs'], 'every builder state, every interleaving of builder calls and generators',
     'sharing shows only when two generators live or run at the same time, which no test does',
     [G, 'include/trajopt/SwerveTrajectoryGenerator.hpp', CA, FF],
     [('SwerveTrajectoryGenerator, Generate', G), ('GetCancellationFlag', CA)])
prop('C24', 'The bindings build the same path as the C++ builder',
     'Each operation of the bindings has, for all arguments, the effect of the C++ builder operation of that name: the same '
     'constraint with the same numbers at the same indices, the same guesses, counts and drivetrain. Bumpers given by length and '
     'width are the rectangle centered on the robot with a safety distance of 0.01, and a polygon obstacle joins the x and y '
     'coordinates in order.',
     ['inputs', 'histories'], 'every builder state, every argument',
     'the bindings are not built by the test suite at all', [FF, 'src/RustFFI.hpp'], [('SwervePathBuilder (rsffi)', FF)])
prop('C25', 'Trajectories reach the caller with running times and headings as angles',
     'A solution becomes one sample per column: the time of a sample is the sum of the time steps up to it, its heading is the '
     'angle of its cosine and sine, all other values are carried over, module by module. Samples and trajectories made of '
     'given parts hold just those, and the bindings return the samples of the solution, '
     'hand them with the handle to every progress callback, and throw the message of a failed generation.',
     ['inputs', 'faults'], 'every solution with columns of equal length, every exit condition of the solver',
     'only a solver run yields solutions; the conversions are never tested', [TR, FF],
     [('HolonomicTrajectory(SwerveSolution)', TR), ('_convert_holonomic_trajectory, generate', FF)])
prop('C26', 'Every Rust method makes exactly the C++ call it stands for',
     'Each method of the Rust SwervePathBuilder calls the C++ function of the same name exactly once, on its own builder, with '
     'its arguments unchanged and in order, and no other. generate returns the trajectory or the text of the error; new, default '
     'and cancel_all call theirs once.',
     ['inputs', 'programs'], 'every method, every argument, both results of generate',
     'no test runs any Rust code', [RS, FF], [('impl SwervePathBuilder', RS)])
prop('C27', 'The Rust and C++ halves of the bindings agree on every signature',
     'Each function the Rust side imports exists in C++ with the parameter types, result and constness that the bridge calls it '
     'with. Functions that may throw are declared fallible in Rust and let the exception out.',
     ['programs'], 'every imported function', 'the bindings are not built by the test suite at all',
     [RS, FF, 'src/RustFFI.hpp'], [('mod ffi', RS), ('SwervePathBuilder (rsffi)', 'src/RustFFI.hpp')])
prop('C28', 'Every request in its documented range is accepted',
     'In a build with assertions, no constructor, builder operation or binding stops the program when its arguments are in the '
     'range its documentation gives: bounds that are not negative, ranges of segments that run forwards, safety distances that '
     'are not negative. A bound of zero is in range.',
     ['inputs'], 'every builder state and every argument in range',
     'tests are built without assertions or pass a few values; the borders of a range are exactly what they leave out',
     [B, BH, CD + '*.hpp', LG, FF],
     [('assertions in constructors', CD + '*.hpp'), ('SgmtConstraint, SgmtObstacle', B)])
prop('C29', 'Nothing reads or writes past the end of a list',
     'Building a path, calculating the guess, generating, converting the solution and every operation of the bindings touch only '
     'elements that exist, for every path with one list of guess points per waypoint, one interval count per segment, and outlines '
     'of at least one point. Obstacles and bumpers may have any number of corners.',
     ['inputs', 'histories'], 'every builder state that the operations can reach, every argument',
     'an access just past the end usually reads something harmless, so a test passes by luck', [G, B, UT, LG, TR, FF],
     [('loops over samples and segments', G), ('WptObstacle, SgmtObstacle, NewWpts', B), ('GenerateLinearInitialGuess', LG)])
prop('C30', 'The order in which swerve modules are listed does not matter',
     'Swapping two modules of a drivetrain gives the same optimization problem, with the forces of a solution swapped '
     'accordingly: same cost, dynamics, limits of speed and force, and limits of the time step.',
     ['inputs'], 'every drivetrain, path and pair of neighbouring modules (swaps of neighbours make every order)',
     'tests use one drivetrain, with one order', [G, 'include/trajopt/drivetrain/SwerveDrivetrain.hpp'],
     [('SwerveTrajectoryGenerator', G), ('SwerveDrivetrain', 'include/trajopt/drivetrain/SwerveDrivetrain.hpp')])
prop('C31', 'A result holds exactly one of value and error, in every operation',
     'An expected always holds a live value or a live error, and has_value says which: also after every construction, conversion, '
     'assignment, emplace, swap and map, and after an exception of a payload, which reaches the caller. Each payload is destroyed '
     'once, arrives where it was sent, and comparisons, value_or, value and the monadic operations agree with what is held.',
     ['inputs', 'histories', 'faults'], 'every operation, every state of its operands, every payload operation throwing or not, 18 kinds of payloads',
     'no test uses the error side, a throwing payload or a conversion', ['include/trajopt/util/expected'],
     [('expected, unexpected', 'include/trajopt/util/expected')])
prop('C32', 'Rust data comes back from serde as it went in',
     'Each data type the Rust bindings share with C++ can be written and read with serde, and a value read back from what was '
     'written has every field as it was. No field is left out, and none is read from a name other than the one it is written '
     'under.',
     ['inputs', 'programs'], 'every shared type and field, every value', 'no test runs any Rust code; a type that cannot be read '
     'back shows only in the programs that store paths and trajectories',
     [RS], [('mod ffi, data types', RS)])
na('N01', 'A returned trajectory satisfies every constraint to within 1e-4',
   'Whenever Generate returns a solution, all equations and inequalities of the problem hold at it to within the solver\'s '
   'tolerance.',
   ['inputs'], 'every path for which the solver reports success', 'needs the solver, over all problems', [G],
   [('SwerveTrajectoryGenerator::Generate', G)],
   'The tolerance is met by the iterations of Sleipnir\'s interior-point method, which is not part of this repository (nor '
   'installed here); no static argument about this code bounds its residual. The parts that this code decides are claimed '
   'apart: the problem handed over (C13-C18), the tolerance asked for (C20) and failures reported (C20).')
na('N02', 'Generation terminates, or stops soon after a cancel request',
   'Every call of Generate returns, and soon after a cancel request.',
   ['inputs', 'schedules'], 'every path, every moment of the request', 'time bounds hold for all inputs or not at all', [G],
   [('SwerveTrajectoryGenerator::Generate', G)],
   'Time and iteration counts are those of the external solver. What this code contributes, the answer to each iteration\'s '
   'poll, is claimed as C21; that no loop of this code runs forever is part of every summary (a loop without end is a '
   'violation).')
na('N03', 'The trajectory found is the fastest admissible one',
   'No admissible trajectory of the path is faster than the one returned.',
   ['inputs'], 'every path', 'needs a lower bound for every path', [G], [('SwerveTrajectoryGenerator', G)],
   'The problem is not convex and the solver finds local optima: the property need not hold even when all code is right. '
   'Claimed instead: the objective is the total time (C13) and nothing excludes an admissible trajectory (C18).')
na('N04', 'Constraints hold between samples as well',
   'The robot keeps clear of obstacles and within limits at every moment between two samples, not only at samples.',
   ['inputs'], 'every trajectory, every moment', 'needs a bound over continuous time', [G], [('dt limit (minWidth)', G)],
   'The design only limits the distance between samples (the time step limit in C13); thin obstacles can be crossed between '
   'samples by design, and how far depends on values only the solver knows.')
na('N05', 'Rounding errors of the computations stay negligible',
   'Guesses, times and geometry agree with their exact values up to a small multiple of the machine precision.',
   ['inputs'], 'every magnitude of the arguments', 'rounding depends on every bit of the inputs',
   [GEO + 'Translation2.hpp', UT, TR], [('running time', TR), ('Linspace', UT)],
   'Summaries are over the reals, so they are blind to double rounding; an error analysis for inputs of unbounded magnitude '
   'would prove nothing useful. Only conversions to less than double precision are modelled (as coarse rounding) and found.')
