RM = "randomized runtime monitoring against an independent reference, under ASan+UBSan"
prop("C09", "Condensed preview models equal step-by-step simulation of the system",
     "For any linear time-varying or time-invariant system, horizon length, initial state and control sequence, the stacked states and outputs predicted by the condensed preview matrices equal those obtained by simulating the system one step at a time.",
     ["inputs"], "all system and output matrices, horizon lengths, initial states, control sequences",
     TESTS + "condensing is not simulated against anything.", [C + "control_problem.h"],
     [("condensing", C + "control_problem.h: condense, condenseTimeInvariant, condenseOutput")], technique=RM)
prop("C10", "Structured matrices behave as the dense matrices they represent",
     "Every operation on block, block diagonal, block lower triangular, Kronecker and selection matrices (access to blocks, rows and columns, products, row selection, evaluation) yields the dense matrix obtained by applying the same operation to their dense counterparts, whatever the block sizes and whether they are fixed at compile time or at run time. "
     "Data whose size is not a multiple of the block size, and factors of a product with a block diagonal matrix which do not fit each other, are rejected by exceptions.",
     ["inputs", "programs"], "all sizes, block partitions, selections and operand combinations",
     TESTS + "only single products of a few fixed sizes are compared.", ["core/include/eigentools/"],
     [("block matrices", "core/include/eigentools/blockmatrix_base.h"), ("selection, Kronecker", "core/include/eigentools/blockmatrix.h"), ("Kronecker products", "core/include/eigentools/blockmatrix_kronecker.h")], technique=RM)
prop("C11", "Dense matrix helpers implement their linear-algebra definitions",
     "For every matrix argument, the dense helpers (A^T A with and without offset and its symmetric completion, concatenation, block diagonal replication, removal of rows and columns, rigid transformation, cross product and Kronecker products, unit conversions) return what their mathematical definition says, for all shapes including empty and single-row ones, without touching other entries. "
     "Indices and sizes outside of the range where a result is defined are rejected by exceptions where the helper checks them.",
     ["inputs"], "all argument shapes and values", TESTS + "most helpers are never called.", ["core/include/eigentools/", C + "utility.h", C + "time.h"],
     [("helpers", "core/include/eigentools/eigentools.h"), ("cross product", "core/include/eigentools/cross_product.h"), ("conversions", C + "utility.h")], technique=RM)
prop("C12", "Rotations and rigid body quantities are consistent with each other",
     "Conversions between Euler angles and rotation matrices are inverse to each other up to the representation's ambiguity, rotation matrices are orthonormal with unit determinant, and angular velocities, accelerations and frame transformations agree with the derivatives and compositions of those rotations.",
     ["inputs"], "all angles, including near-singular ones, all axis conventions", TESTS + "a few constant angles are used at most.", ["core/include/rigid_body/"],
     [("rotations", "core/include/rigid_body/rotary_state.h")], technique=RM)
prop("C13", "Discrete-time walking models are exact and compose over time",
     "The triple-integrator and point-mass models with their several choices of control and output variables predict the exact motion of a point under constant jerk, so that a step of the sum of two durations equals two consecutive steps with matching controls, and predictions with equivalent controls agree.",
     ["inputs"], "all states, controls, heights and durations", TESTS + "the models are not executed by the stable tests.", ["core/include/walking/point_mass_model_6z.h", "core/include/rigid_body/"],
     [("models", "core/include/walking/point_mass_model_6z.h")], technique=RM)
prop("C14", "Trajectories meet boundary conditions and report true derivatives",
     "A cubic polynomial and a swing foot trajectory pass through their prescribed start, end and apex points with the prescribed velocities, and the velocity and acceleration they report are the time derivatives of the position they report, for every duration and every query time.",
     ["inputs", "histories"], "all boundary conditions, durations, query times and re-initializations", TESTS + "trajectories are not exercised.", ["core/include/walking/foot_trajectory.h", "core/include/rigid_body/cubic_polynomial.h"],
     [("polynomials", "core/include/rigid_body/"), ("foot trajectory", "core/include/walking/foot_trajectory.h")], technique=RM)
prop("C15", "The stance schedule follows the configured gait for any time shifts",
     "For every valid gait configuration, the sequence of stances visited is the configured one (initial stance, then single supports alternating between the feet and separated by transitional double supports, then the final stance) with the configured durations, regardless of how the advance of time is divided into shifts. "
     "The previewed stances are exactly the ones that advancing time visits later, previewing changes nothing, and invalid configurations are rejected by exceptions.",
     ["configurations", "histories", "inputs"], "all gait configurations and sequences of shifts and previews", TESTS + "the schedule is not exercised.",
     ["core/include/walking/stance_finite_state_machine.h"], [("finite state machine", "core/include/walking/stance_finite_state_machine.h")],
     technique="online trace monitor of schedules against an executable gait specification, under ASan+UBSan")
prop("C16", "A saved configuration is read back unchanged",
     "Any value, vector, matrix, enumeration, nested section, list of tasks and every configured entry of a configurable object written to a configuration file is read back equal to what was written, whatever its shape, values and section name, in any order of reading, also into an object which has other values; quantities which an object derives from its configured entries correspond to the values read.",
     ["inputs", "configurations"], "all values and shapes of all configurable types", TESTS + "configuration files are not exercised.",
     ["bridges/config_msgpack/interface/", "core/include/config/"], [("writer and reader", "bridges/config_msgpack/interface/config_msgpack/"), ("configurable classes", "core/include/config/")], technique=RM)
prop("C17", "Faulty configuration input is rejected cleanly and defaults apply",
     "Missing, truncated, corrupted, wrongly typed, wrongly sized or inconsistent configuration input is rejected by an exception or, in non-strict reading, leaves each missing entry at its default (whatever the object had before) while the others are read as they are in the file; it never causes memory errors, undefined behaviour or failed assertions. "
     "Strict reading never accepts a missing entry, unknown entries and the order of entries do not matter, and a reader remains usable for other sections after a rejected read.",
     ["inputs", "fault_sequences", "histories"], "all corruptions of all configuration files, all read sequences", TESTS + "configuration is not exercised.",
     ["bridges/config_msgpack/interface/", "core/include/config/"], [("reader", "bridges/config_msgpack/interface/config_msgpack/reader.h"), ("strictness", "core/include/config/configurable_base.h")],
     technique="fault injection into configuration files (truncation, bit flips, type changes) under ASan+UBSan with a default/strictness oracle")
prop("C18", "The log contains every logged value once, in order, under its name",
     "Every entry logged with any logger, including the one writing from a background thread, appears in the output exactly once, in the order of logging, under its full hierarchical name and with values that parse back to what was logged, for any timing of the writer thread. "
     "Logging is free of data races, and destroying a logger or giving it another output writes out everything logged before; entries logged before there is an output are written to the first one.",
     ["schedules", "histories", "inputs"], "all interleavings of logging and writer threads, all logging sequences", TESTS + "loggers run without any check of output or races.",
     [C + "logger.h"], [("threaded logger", C + "logger.h"), ("entry names", C + "logger.h: LogEntryName")],
     technique="ThreadSanitizer with injected delays, and an offline checker of the recorded log (exactly-once, order, values)")
prop("C19", "The walking controller agrees with its own motion model",
     "At every step of a walk, the predicted CoM, CoP and footstep profiles obtained from a solution equal the motion obtained by integrating the model state with the controls of that solution, a choice of variables satisfies the written constraints exactly when the motion it describes keeps the CoP inside the support, places the feet within reach and ends in a capturable state, the objective is the weighted sum of the documented error terms of that motion, the guesses of the active set and of the solution made for the next problem are the previous ones advanced by one preview interval, and the next model state is the first predicted one. "
     "The walk follows the stance schedule and terminates after it.",
     ["histories", "inputs", "configurations"], "all walks: parameters, velocities, disturbances, gait configurations", TESTS + "the walking module is not executed by the stable tests.",
     ["modules/wpg04/include/wpg04/"], [("preview", "modules/wpg04/include/wpg04/mpc_wpg.h"), ("tasks", "modules/wpg04/include/wpg04/tasks_*.h")],
     technique="closed-loop runtime monitoring with an independent simulator and QP reference, under ASan+UBSan")
prop("C20", "The wheeled robot controller's predictions agree with its own motion model",
     "At every step of a motion, the predicted base, body, jerk and CoP profiles obtained from a solution, and the states at intermediate instants, equal the motion obtained by integrating the model state with the controls of that solution; the next model state is the first predicted one and keeps heights and masses. "
     "A choice of variables satisfies the written constraints exactly when its motion respects the bounds on base velocity, base acceleration, CoP and body position, the objective is the weighted sum of the documented error terms of that motion, each previewed interval follows the requested motion in force at its end, shifting consumes exactly the elapsed time, control stops exactly when the requested motions do not cover the horizon, and the guesses for the next problem are the previous ones advanced by one interval.",
     ["histories", "inputs", "configurations"], "all motions: parameters, references, disturbances", TESTS + "the module is not executed by the stable tests.",
     ["modules/pepper_mpc/include/pepper_mpc/"], [("preview", "modules/pepper_mpc/include/pepper_mpc/mpc_mg.h"), ("tasks", "modules/pepper_mpc/include/pepper_mpc/tasks_*.h")],
     technique="closed-loop runtime monitoring with an independent simulator, under ASan+UBSan")
prop("C21", "The bridges to QP solvers pass the problem, and bring back its solution",
     "For every hierarchy which is a QP, the qpOASES, qpmad and QuadProg++ solvers return the point which satisfies all constraints of the first level and minimizes the sum of squares of the last one (plus the configured regularization), however often and for whatever problems the same solver was used before. "
     "The status, its description and the failure exception tell success from failure; options, iteration and time limits and guesses reach the library unchanged and are used once; the active set brought back assigns every row of every task exactly the state the library reports for it (of repeated bounds on a variable only the tightest are active). "
     "Hierarchies which are not QPs, and solutions or guesses made for another problem, are refused before the library is called.",
     ["histories", "inputs", "configurations"], "all feasible and infeasible QP hierarchies, all working sets and return codes of the libraries, all options", TESTS + "no bridge to a QP solver is executed by the stable tests.",
     ["bridges/qpOASES/interface/", "bridges/qpmad/interface/", "bridges/QuadProgpp/interface/"], [("qpOASES", "bridges/qpOASES/interface/qpoases/solver.h"), ("qpmad", "bridges/qpmad/interface/qpmad/solver.h"), ("QuadProg++", "bridges/QuadProgpp/interface/quadprogpp/solver.h")],
     technique="runtime monitoring of the bridges against recording stand-ins of the libraries, with an independent dual active-set reference, under ASan+UBSan")
prop("C22", "The robot kinematics bridge agrees with the geometry of the robot",
     "For every robot description and state, the positions, orientations, poses and masses of links (also of links rigidly fixed to others), of points of links, of groups of links and of the whole robot reported by the RBDL bridge equal those of the described kinematic tree, and every Jacobian is the derivative of the quantity it belongs to: angular velocity in the rows of rotation, velocity of the point or center of mass in the rows of translation (rotation first when complete), with zero columns for joints which do not move it and nothing kept from what the matrix held before. "
     "This holds after any sequence of states and of loaded models; names which are not in the model and files which cannot be read are rejected by an exception.",
     ["inputs", "histories", "configurations"], "all kinematic trees, states, tags and sequences of loading", TESTS + "the bridge is not compiled for the stable tests.",
     ["bridges/rbdl/interface/"], [("tags and Jacobians", "bridges/rbdl/interface/rbdl/model.h"), ("transforms", "bridges/rbdl/interface/rbdl/spatial_transform.h")],
     technique="randomized runtime monitoring over a stand-in of RBDL against independent forward kinematics and numerical differentiation, under ASan+UBSan")
prop("C23", "The whole-body robot model is consistent with the description of the robot",
     "For every configuration of the robot, in each of the supported parameterizations (root in the torso, root in the base, planar root) and after any sequence of state updates, loads and round trips of the state through files: root pose and vector of generalized coordinates agree, position, orientation and yaw of the base, centers of mass, masses, poses of links, Jacobians and state errors reported by the model are those of the kinematic tree of the robot description; joint limits of positions and velocities are those of the description and are enforced exactly (within the tolerance) by all checks of states, transitions and commands; "
     "a command reproduces the motion of the base, its wheel velocities are those of rolling without slipping, and correction of the state by the command follows the commanded velocities; reordering of columns between parameterizations keeps every joint. Descriptions which do not match, unknown links, infeasible roots, and commands without a saved state are rejected by an exception.",
     ["inputs", "histories", "configurations"], "all joint configurations, root poses, sequences of states, commands and time intervals", TESTS + "the module needs RBDL and is not compiled for the stable tests.",
     ["modules/pepper_ik/include/"], [("model", "modules/pepper_ik/include/pepper_ik/model.h"), ("descriptions", "modules/pepper_ik/include/pepper_ik/model_description.h"), ("generalized coordinates", "modules/pepper_ik/include/pepper_ik/generalized_coordinates.h")],
     technique="randomized runtime monitoring over a stand-in of RBDL against an independent reader of the robot description, forward kinematics and rolling constraints, under ASan+UBSan")
prop("C24", "Whole-body control tasks express the motion of the robot",
     "For every state, reference, tag and parameters, each task of the whole-body controller forms constraints whose matrix is gain times the Jacobian of the controlled quantity (base and body CoM, base orientation, orientation or complete pose of a tag, joints; only the selected axes or rows available with the planar root) and whose vector is the same gain times the task gain times the current error or reference velocity of that quantity; joint tasks address exactly the named joints and joint bounds are distances to the limits; velocities of tags given in local frames, their global twists, desired poses and pose errors agree with rigid body motion. "
     "This holds whether a task is constructed or read from a file, and after it is reconfigured and reused in any sequence; parameters missing in a file get default values. Repeated solution of a hierarchy of these tasks followed by the update of coordinates satisfies the first level exactly, the second optimally, and converges to a feasible reference; unknown tags, wrong sets of axes and double parsing of a solution are rejected by an exception.",
     ["inputs", "histories", "configurations"], "all states, references, velocities of tags, parameters of tasks, sequences of reconfigurations and hierarchies", TESTS + "the module needs RBDL and is not compiled for the stable tests.",
     ["modules/pepper_ik/include/"], [("tasks", "modules/pepper_ik/include/pepper_ik/task_tagpose.h"), ("controller", "modules/pepper_ik/include/pepper_ik/whole_body_controller.h"), ("configured hierarchy", "modules/pepper_ik/include/pepper_ik/configurable_optimization_problem.h")],
     technique="randomized runtime monitoring over a stand-in of RBDL against independent kinematics, rigid body motion and lexicographic least squares, under ASan+UBSan")

prop("C25", "YAML configurations are equivalent to the others",
     "For every set of named entries of the supported types (scalars, strings, enums, vectors and matrices of fixed and dynamic size, possibly nested lists), every configurable object and every hierarchy of tasks, what is written to a YAML configuration is read back with the same values (real numbers to the 15 written significant digits), also among other sections, after repeated flushes and while the writer exists; any well formed YAML text with the same content, whatever its style, order of entries and unknown entries, is read exactly. "
     "Entries missing in a text are rejected by an exception in strict mode and get default values otherwise, never those which the object had before. Wrong types and shapes, malformed texts and files which cannot be opened are rejected by an exception, without memory errors, and leave the reader and the object usable for valid sections.",
     ["inputs", "configurations", "histories"], "all values of the supported types, classes, texts and single faults in them", TESTS + "no test uses the YAML bridge.",
     ["bridges/config_yaml/interface/"], [("reader", "bridges/config_yaml/interface/config_yaml/reader.h"), ("writer", "bridges/config_yaml/interface/config_yaml/writer.h"), ("configurable classes", "core/include/config/")],
     technique="randomized runtime monitoring over an adapter of the installed yaml-cpp against independently generated texts, the msgpack view of the same objects and the library's own parser, under ASan+UBSan")
