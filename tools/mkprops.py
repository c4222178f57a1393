#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

U="include/trajopt/util/TrajoptUtil.hpp"; GLI="include/trajopt/util/GenerateLinearInitialGuess.hpp"
B="src/path/SwervePathBuilder.cpp"; BH="include/trajopt/path/SwervePathBuilder.hpp"
G="src/SwerveTrajectoryGenerator.cpp"; GH="include/trajopt/SwerveTrajectoryGenerator.hpp"
EX="include/trajopt/util/expected"; CA="src/util/Cancellation.cpp"
T2="include/trajopt/geometry/Translation2.hpp"; R2="include/trajopt/geometry/Rotation2.hpp"; P2="include/trajopt/geometry/Pose2.hpp"
HT="include/trajopt/trajectory/HolonomicTrajectory.hpp"; HS="include/trajopt/trajectory/HolonomicTrajectorySample.hpp"
FF="src/RustFFI.cpp"; FH="src/RustFFI.hpp"; RS="src/lib.rs"
CD="include/trajopt/constraint/"

prop("C01","Sample layout: every sample of every segment gets one dense, in-order index",
 "For every list of per-segment sample counts (zeros allowed), the index of (waypoint, sample) equals the number of samples that precede it: the initial sample has index 0, consecutive samples of a segment and of consecutive segments get consecutive indices, with no gap and no collision, and the index of sample 0 of the waypoint after the last one is the total number of samples. Asking for a waypoint further than that, whose position depends on a segment that does not exist, raises an out-of-range error instead of returning an index.",
 ["inputs"],"all count vectors and all (waypoint, sample) pairs","The one test fixes counts {2,3} and four pairs.",
 [U],[("GetIndex",U)],observe=["trajopt::GetIndex"])
prop("C02","Linear spacing ends on its target, is evenly spaced and has the exact length",
 "For any finite start and end whose difference is finite too, and any number of samples n, linear spacing yields exactly n values, the k-th being start + k*(end-start)/n up to rounding, so that the start itself is not repeated and the last value is the end. n = 0 yields no values.",
 ["inputs"],"all finite doubles (within non-overflowing range) and all n","One test: (0,2,2).",
 [U],[("Linspace",U)],observe=["trajopt::Linspace"])
prop("C03","Angle spacing takes the shortest way round and lands on the target heading",
 "For any finite start and end angles, including ones many turns apart, angle spacing yields exactly n values which start one step after the start angle, are evenly spaced, never sweep more than half a turn in total, and end on an angle that is the same heading as the end angle (equal modulo a full turn).",
 ["inputs"],"all finite angle pairs and sample counts, including differences of any multiple of pi","No test calls it.",
 [U],[("AngleLinspace",U)],observe=["trajopt::AngleLinspace"])
prop("C04","The initial guess visits every guess point and is linear in between",
 "For any builder history in which each segment has at least as many control intervals as guess points to reach, the calculated initial guess has one position and unit heading vector per sample, the sample at each waypoint has that waypoint's last guess pose, the segment's intermediate guess points are all visited in order, and between two consecutive guess points x, y and heading change in equal steps with heading taking the shortest way round. When a segment has fewer intervals than guess points, every per-sample list still has exactly one entry per sample and still ends at the waypoint's guess.",
 ["inputs","histories"],"all guess point lists and control interval counts","Two tests with headings all zero check only x; they are not part of the buildable suite here.",
 [GLI,B,U],[("GenerateLinearInitialGuess",GLI),("SwervePathBuilder::CalculateInitialGuess",B)],
 [("initialGuessPoints","guess poses per waypoint; last one is the waypoint itself",BH)],["SwervePathBuilder::CalculateInitialGuess"])
prop("C05","The path depends on what was specified, not on the order of builder calls",
 "After any sequence of builder calls, the path has as many waypoints as the largest waypoint index mentioned plus one and (unless overridden) 40 control intervals per segment; each waypoint's constraints, each segment's constraints, guess points, counts, drivetrain and callbacks are exactly those given, each attached to the waypoints and segments it was given for and to no other. Calls about different waypoints or segments commute; a later call replaces an earlier one for guess pose, drivetrain and counts, while constraints, bumpers, callbacks and segment guess points accumulate.",
 ["histories","inputs"],"all sequences of builder calls with valid arguments","Tests build one fixed history.",
 [B,BH,"include/trajopt/path/Path.hpp"],[("NewWpts, WptConstraint, SgmtConstraint, PoseWpt, TranslationWpt, WptInitialGuessPoint, SgmtInitialGuessPoints, ControlIntervalCounts",B)],
 [("path.waypoints","constraints by waypoint",BH),("controlIntervalCounts","samples per segment",BH)],["SwervePathBuilder::GetPath","CalculateInitialGuess","GetControlIntervalCounts"])
prop("C06","Obstacles keep the whole bumper outline away, for every bumper and every edge",
 "For any set of bumpers and any obstacle (point, segment or polygon, wound either way), applying the obstacle to a waypoint or to a range of segments requires that at every concerned sample each bumper corner stays at least the sum of both safety distances from each obstacle edge including the closing one, and each bumper edge including the closing one stays at least that far from each obstacle corner; nothing else is required. Bumpers added earlier all apply, whatever their shapes, and poses that keep the distance are allowed.",
 ["inputs","histories"],"all bumper and obstacle shapes, counts of corners, poses and application ranges","The only test is skipped and has one square bumper and one point.",
 [B,CD+"LinePointConstraint.hpp",CD+"PointLineConstraint.hpp",CD+"PointPointConstraint.hpp"],[("WptObstacle",B),("SgmtObstacle",B)],
 [("bumpers","bumper outlines so far",BH)],["recorded optimization problem evaluated at chosen poses"])
prop("C07","Velocity, acceleration and direction limits admit exactly what they describe",
 "At a constrained sample, the linear velocity limit admits exactly the velocities whose magnitude is at most the limit, the angular velocity limit exactly the rates within plus or minus the limit, the linear acceleration limit exactly the accelerations whose magnitude is at most the limit, and a limit of zero admits only zero. The velocity direction constraint admits exactly the velocities parallel (or antiparallel) to the given field angle, and zero velocity.",
 ["inputs"],"all limits and states","No test evaluates any constraint.",
 [CD+"LinearVelocityMaxMagnitudeConstraint.hpp",CD+"AngularVelocityMaxMagnitudeConstraint.hpp",CD+"LinearAccelerationMaxMagnitudeConstraint.hpp",CD+"LinearVelocityDirectionConstraint.hpp"],[("Apply of each",CD)],None,["recorded residuals evaluated at chosen states"])
prop("C08","Pose, translation and point-at constraints pin exactly the pose they name",
 "A pose constraint admits exactly the given position with the given heading (any full-turn representation) as a unit heading vector, a translation constraint exactly the given position with any heading, and a point-at constraint exactly the poses whose heading differs from the bearing to the field point by at most the tolerance (of at most half a turn).",
 ["inputs"],"all targets, tolerances and poses","No test evaluates any constraint.",
 [CD+"PoseEqualityConstraint.hpp",CD+"TranslationEqualityConstraint.hpp",CD+"PointAtConstraint.hpp",P2,R2,T2],[("Apply of each",CD),("operator== of Pose2, Rotation2, Translation2",P2)],None,["recorded residuals evaluated at chosen poses"])
prop("C09","Keep-out constraints enforce the true distance between the shapes they name",
 "For any robot pose, the point-point, line-point and point-line constraints hold exactly when the Euclidean distance between the robot feature (moved with the robot's pose) and the field feature is at least the requested minimum distance, where a line means the finite segment between its two (distinct) ends.",
 ["inputs"],"all features, minimum distances (below and above 1 m) and poses, including projections beyond the ends","No test evaluates any constraint.",
 [CD+"PointPointConstraint.hpp",CD+"LinePointConstraint.hpp",CD+"PointLineConstraint.hpp",CD+"detail/LinePointDistance.hpp"],[("LinePointDistance",CD+"detail/LinePointDistance.hpp")],None,["recorded residuals evaluated at chosen poses"])
prop("C10","Constraints bind at exactly the samples they were given for",
 "A waypoint constraint restricts the sample of that waypoint and no other sample. A segment constraint from one waypoint to another restricts every sample from the first waypoint to the last, both included and across all intermediate waypoints, and no sample outside that range.",
 ["inputs","configurations"],"all waypoint counts, interval counts, ranges and constraint kinds","No test builds an optimization problem here.",
 [G,BH,U],[("waypoint and segment constraint loops of the generator constructor",G),("SgmtConstraint",BH)],None,["recorded residuals under per-sample perturbation"])
prop("C11","Consecutive samples obey the kinematics over the segment's time step",
 "A motion is feasible for the generated problem only if between every two consecutive samples, across segment borders too, position changes by the later velocity times the segment's time step, heading by the later angular velocity times the step, velocity by the later acceleration times the step and angular velocity by the later angular acceleration times the step; every motion that satisfies these and the other stated limits is feasible.",
 ["inputs","configurations"],"all paths, drivetrains and motions","No test builds an optimization problem here.",
 [G],[("kinematics constraints loop",G)],None,["recorded residuals at constructed motions and single-fault motions"])
prop("C12","Module forces explain the robot's acceleration at every sample",
 "A motion is feasible only if at every sample the module forces sum to mass times linear acceleration, and their torques about the robot's origin (module positions rotated by the robot's heading) sum to moment of inertia times angular acceleration; every force distribution satisfying this and the stated limits is feasible.",
 ["inputs","configurations"],"all drivetrains (any number and placement of modules), headings and forces","No test builds an optimization problem here.",
 [G],[("dynamics constraints",G)],None,["recorded residuals at constructed motions and single-fault motions"])
prop("C13","Every wheel respects its own speed and force limits at every sample",
 "A motion is feasible only if at every sample and for every module, the wheel's ground speed implied by the robot's velocity, heading and turn rate is at most that module's radius times its maximum wheel speed, and the module's force is at most that module's maximum torque divided by its radius; motions within these limits are not excluded by them.",
 ["inputs","configurations"],"all drivetrains with differing modules and all motions","No test builds an optimization problem here.",
 [G],[("module power constraints",G)],None,["recorded residuals at constructed motions and single-fault motions"])
prop("C14","The objective is total travel time with nonnegative, bounded time steps",
 "The quantity minimized is the sum over segments of the number of control intervals times the segment's time step. Every time step must be nonnegative, and short enough that no wheel at full speed travels further in one step than the smallest nonzero x or y spacing between two modules; no other bound is put on time steps.",
 ["inputs","configurations"],"all interval counts, drivetrains and step values","No test builds an optimization problem here.",
 [G],[("T_tot, minWidth, dt constraints",G)],None,["recorded cost and residuals"])
prop("C15","The order in which swerve modules are listed does not matter",
 "For any drivetrain and any reordering of its modules, the generated problem accepts exactly the same motions at the same cost, with the module forces reordered in the same way.",
 ["configurations","inputs"],"all permutations of all module lists","No test builds an optimization problem here.",
 [G,"include/trajopt/drivetrain/SwerveDrivetrain.hpp"],[("per-module loops of the generator constructor",G)],None,["recorded problems of permuted drivetrains, compared"])
prop("C16","The solver starts from the builder's initial guess with finite values",
 "When the solver is first started, the pose of every sample equals the builder's calculated initial guess, the velocity and acceleration variables are the finite differences of that guess over the guess's own time steps (zero at the first sample, turn rate taken the shortest way round), every time step is positive, and all values are finite whenever every segment has at least one control interval.",
 ["inputs","configurations"],"all paths with guesses","No test builds an optimization problem here.",
 [G,GLI],[("ApplyInitialGuess",G)],None,["decision variable values at the start of Solve"])
prop("C17","A returned solution is exactly the solver's final state, field by field",
 "Whatever values the solver finishes with, the returned solution reports each sample's x, y, heading cosine and sine, velocities, turn rate, accelerations and each module's forces in sample and module order, and lists the segment time step once per control interval of that segment; all lists have one entry per sample except the time steps, which have one fewer.",
 ["inputs","configurations"],"all final solver states, path shapes and module counts","No test solves a problem here.",
 [G,"include/trajopt/solution/SwerveSolution.hpp"],[("ConstructSwerveSolution",G)],None,["returned SwerveSolution versus constraint-identified variables"])
prop("C18","Success and failure are reported exactly as the solver reported them",
 "A generation returns a solution if and only if the solver ended in success or acceptable tolerance; in every other case, including a requested stop, it returns the solver's own message for that exit condition and never a solution. The solver is asked for a tolerance of 1e-4, diagnostics only when asked for, and is run exactly once per generation.",
 ["fault_sequences","inputs"],"all solver outcomes and repeated generations","No test solves a problem here.",
 [G],[("Generate",G)],None,["Generate() return value"])
prop("C19","A trajectory is the solution with accumulated time and heading angles",
 "Converting a solution into a trajectory yields one sample per position, the first at time zero and each later one exactly the preceding time step after the previous, with heading in [-pi, pi] equal to the angle of the heading vector and position, velocity, turn rate and module forces copied unchanged and in order. An empty solution yields an empty trajectory. Samples and trajectories constructed or copied directly hold what they were given, and no forces unless given.",
 ["inputs"],"all solutions","No test constructs a trajectory.",
 [HT,HS],[("HolonomicTrajectory(const SwerveSolution&)",HT)],None,["HolonomicTrajectory::samples"])
prop("C20","Progress callbacks see the current iterate, all of them, at most 60 per second",
 "During a generation, each progress report calls every registered callback once, in registration order, with a complete solution holding the solver's current values and with that generation's handle; its reports are never closer than 1/60 s apart, and an iteration which comes at least 1/60 s after the generation's previous report (or its first iteration) is always reported. Reports of one generation are unaffected by other generations.",
 ["histories","schedules"],"all iteration timings, callback sets, handles and interleaved generations","No test solves a problem here.",
 [G,BH],[("callback lambda with frame limit",G),("AddIntermediateCallback",B)],None,["callback invocations against a virtual clock"])
prop("C21","Cancelling stops every running generation at its next iteration",
 "If cancellation is requested while a generation runs, from any thread or from a callback, the generation's very next solver iteration asks the solver to stop and the generation ends with the stop message; without a request it is never stopped, and a request made before a generation starts does not stop it.",
 ["schedules","histories"],"all positions of the request relative to iterations and generations","No test touches cancellation.",
 [G,CA,FF],[("GetCancellationFlag",CA),("solver callback in Generate",G),("cancel_all",FF)],
 [("cancellation flag","process-wide request",CA)],["solver callback result and Generate() return"])
prop("C22","Concurrent generations do not race and match sequential ones",
 "Building paths and generating trajectories on several threads at once, with progress callbacks and cancellation requests from other threads, has no data race, and each generation that is not cancelled returns the same result as when run alone.",
 ["schedules"],"all interleavings of independent builders, generators and cancel requests","Tests are single-threaded.",
 [G,B,CA,FF],[("atomic cancellation flag",CA),("per-generator state",GH)],None,["ThreadSanitizer reports; results versus a sequential run"])
prop("C23","Generators are isolated snapshots and generation is repeatable",
 "A generator works on a copy of the builder taken at construction: later builder calls, other generators, and destroying the builder do not affect it, and constructing or running it does not change the builder. Two generators made from equal builders produce identical problems and results, and a generator that has been moved or whose original is gone still reports and returns its own values.",
 ["histories","schedules"],"all interleavings of builder calls, generator construction, moves and runs","No test constructs two generators.",
 [G,GH,BH],[("constructor takes the builder by value",G)],None,["recorded problems and results"])
prop("C24","The result type behaves like std::expected for every operation sequence",
 "For every sequence of construction, copy, move, assignment, emplace, swap, comparison, observer, value_or, map, transform, and_then, or_else and map_error operations, the result type and the unexpected wrapper give the same observable state and results as std::expected given the same operations, including which alternative is held, exception thrown by value() on an error, and comparisons of every pair of states.",
 ["histories","inputs"],"all operation sequences over value and error types, including void values","The build only compiles the header.",
 [EX],[("expected, unexpected, bad_expected_access",EX)],None,["lockstep comparison against C++23 std::expected"])
prop("C25","The result type never leaks, double-destroys or loses its state on exceptions",
 "For every operation sequence, including ones where a copy, move or conversion of the value or error type throws, every constructed value or error is destroyed exactly once, none is used outside its lifetime, and an assignment, emplace or swap that throws leaves an object that holds a live value or a live error; a throwing assignment keeps the previous state.",
 ["histories","fault_sequences"],"all operation sequences and all single exception points","The build only compiles the header.",
 [EX],[("expected_operations_base::assign, expected::emplace, swap, assignment",EX)],None,["lifetime ledger of tracked payload types under ASan/UBSan"])
prop("C26","Numeric geometry follows plane geometry",
 "For all finite operands: translations form a vector space with the usual dot, cross, norm and distance; rotations compose and invert like angles, convert to radians in [-pi, pi] and degrees consistently; rotating a translation preserves norm and adds the angle; poses rotate both parts; polar construction, angle, structured bindings and accessors agree with each other.",
 ["inputs"],"all finite coordinates and angles","The geometry tests sample a few points and are not part of the buildable suite here.",
 [T2,R2,P2],[("Translation2, Rotation2, Pose2",T2)],None,["results versus long double reference and algebraic identities"])
prop("C27","Symbolic geometry agrees with numeric geometry",
 "Every geometry operation applied to decision variables, or to mixes of decision variables and numbers, evaluates to what the numeric operation yields on the variables' values, also after the values change, and conversion from numeric to symbolic geometry preserves the value.",
 ["inputs"],"all operations, operand kinds and values","Tests cover numeric geometry only.",
 [T2,R2,P2],[("template operators",T2)],None,["Variable values versus double results"])
prop("C28","The foreign-function builder builds the same problem as the native builder",
 "For every sequence of calls, the foreign-function builder yields the same optimization problem, starting point and control intervals as the corresponding native builder calls, where set_bumpers(length, width) means the rectangle of that length along x and width along y with 1 cm safety distance, a circle obstacle is a point with the radius as safety distance, and a polygon whose coordinate lists differ in length is ignored.",
 ["histories","inputs"],"all call sequences with valid arguments","No test touches the FFI; it does not build here.",
 [FF,FH],[("trajopt::rsffi::SwervePathBuilder",FF)],None,["recorded problems of both builders, compared"])
prop("C29","Foreign-function results and progress reports are lossless",
 "A trajectory returned or reported through the foreign-function interface has the same samples, fields and per-module forces in the same order as the native trajectory for the same solver values, with the caller's handle; a failed generation throws an exception carrying the solver's message and returns no trajectory.",
 ["inputs","fault_sequences"],"all solver outcomes, sample and module counts, handles","No test touches the FFI; it does not build here.",
 [FF],[("generate, add_progress_callback",FF)],None,["returned rust structs versus native solution"])
prop("C30","The Rust API forwards every call faithfully and turns failures into Err",
 "Every Rust builder method has exactly the effect of the native builder call of the same meaning with the same arguments in the same roles; generate returns Ok with the complete trajectory or Err with the solver's message and never unwinds or aborts on a solver failure; progress callbacks receive the trajectory and handle; all public data types survive a JSON round trip with their field names.",
 ["histories","inputs","fault_sequences"],"all call sequences, arguments and solver outcomes","There is no Rust test, and the crate does not build here.",
 [RS,FF,FH],[("impl SwervePathBuilder",RS),("cxx bridge",RS)],None,["recorded problems and results through Rust versus native"])
prop("C31","Valid use never triggers memory errors or undefined behaviour",
 "No sequence of valid API calls, on builders, generators, trajectories, results and geometry, with any number of waypoints, modules, bumpers and obstacles and any solver outcome, reads or writes out of bounds, uses freed or uninitialized memory, leaks, or executes undefined behaviour.",
 ["histories","inputs","fault_sequences"],"all valid API histories","Two tests run, without sanitizers.",
 [G,B,BH,GLI,U,HT,FF],[("container access with at(), value semantics",G)],None,["ASan, UBSan, LSan, libstdc++ assertions and valgrind reports"])
prop("C32","Malformed requests are contained: an error or a result, never corruption",
 "Requests that are malformed, such as an empty path, missing drivetrain modules, missing or surplus control interval counts, zero counts, reversed or empty ranges, empty outlines, negative limits or non-finite numbers, either raise a C++ exception or are processed, and in release builds never corrupt memory or execute undefined behaviour; a builder that raised remains usable and destructible.",
 ["inputs","histories"],"all malformed argument combinations reachable through the public API","No test passes malformed input.",
 [G,B,BH,GLI,U],[("at() bounds checks",G)],None,["ASan/UBSan on an NDEBUG build"])
prop("C33","Solved trajectories obey physics, limits, waypoints and obstacles end to end",
 "When a converging solver is used on ordinary paths (with a fixed heading at one waypoint at least), the trajectory that comes out starts at and passes its waypoints in order, moves consistently with its velocities and timestamps, stays within every wheel's speed and force limits and every path constraint, stays clear of obstacles at its samples, and explains its acceleration by its module forces. Ordinary paths are solvable; straight and turning moves between rests take the least time the limits allow in the given number of steps; and a solved motion stays admissible when limits are loosened, when the whole field is turned, moved or mirrored, and when modules are listed in another order.",
 ["inputs","configurations"],"all ordinary paths a converging interior-point solver solves","The solver is absent, so nothing end to end runs here.",
 [G,B,HT],[("whole pipeline",G)],None,["returned trajectories versus an independent physics checker"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
