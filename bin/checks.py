CHECKS = {
    "C01": dict(
        programs=[dict(name="c01", src="c01_objective.cpp")],
        rule="random objective levels of 1-6 equality tasks of all eight kinds",
        require=["type_tuples", "diagonal_hessians", "reused_objects"],
    ),
    "C02": dict(
        programs=[dict(name="c02", src="c02_constraints.cpp")],
        rule="random constraint levels of 1-6 tasks of all twenty kinds",
        require=["feasible_probes", "infeasible_probes", "contradictory_bounds_rejected"],
    ),
}
CHECKS["C03"] = dict(
    programs=[dict(name="c03", src="c03_activeset.cpp")], rule='random tasks of all twenty kinds with points drawn far from, near and exactly on their bounds; a case is distinct by task data and point',
    require=["exactly_on_a_bound", "activation_undefined", "activation_equality", "feasible_points", "container_operations", "active_set_operations", "container_shifts"])
CHECKS["C04"] = dict(
    programs=[dict(name="c04", src="c04_routing.cpp")], rule='random hierarchies formed repeatedly while tasks change size, with every activation tagged; a case is distinct by the hierarchy history',
    require=["guesses_reused", "guesses_default", "active_sets_distributed", "shifts", "rejections_observed"])
CHECKS["C05"] = dict(
    programs=[dict(name="c05", src="c05_solution.cpp")], rule='random solution structures and pairs of structures; a case is distinct by names, sizes and values',
    require=["parts_carried", "parts_zeroed", "rejections_observed"])
CHECKS["C06"] = dict(
    programs=[dict(name="c06", src="c06_malformed.cpp")], rule='one way of corrupting a well formed problem per case, systematically over task kinds and ways; trivial when the way does not apply',
    require=["rejections_observed"])
CHECKS["C07"] = dict(
    programs=[dict(name="c07", src="c07_solver.cpp")], rule='random strictly convex equality constrained QPs for the real solver, and all solver entry points of instrumented solvers with injected failures; distinct by problem or by observed protocol trace',
    require=["solved_method1", "solved_method2", "solved_method3", "solved_unconstrained", "failures_reported", "admitted", "refused", "errors_injected"])
CHECKS["C08"] = dict(
    programs=[dict(name="c08", src="c08_reuse.cpp")], rule='random histories of task changes, each forming compared with a freshly built problem; distinct by history',
    require=["rounds", "gain_changed"])

CHECKS["C09"] = dict(
    programs=[dict(name="c09", src="c09_condense.cpp")],
    rule="random systems (also with zero and identity transitions), horizons of 1-25 steps, dense and block interfaces, results reused; distinct by simulated trajectory",
    require=["states_compared", "outputs_compared", "grouped_outputs_compared", "single_step_horizons", "rejections_observed"])
CHECKS["C10"] = dict(
    programs=[dict(name="c10", src="c10_structured.cpp")],
    rule="random block matrices of three sparsity types, static, dynamic and mixed block sizes, all accesses and products; distinct by sizes and entries",
    require=["selections", "products", "kroneckers", "block_sizes_changed", "interfaces", "diagonal_products", "operators", "kronecker_products", "kronecker_products_dynamic", "kronecker_vectors", "kronecker_left_products", "kronecker_left_nonsquare", "rejections_observed"])
CHECKS["C11"] = dict(
    programs=[dict(name="c11", src="c11_dense.cpp")],
    rule="random arguments of the dense helpers, including empty, single row and single column ones; distinct by sizes and entries",
    require=["symmetric", "offsets", "fixed_sizes", "copies", "consecutive_empty", "horizontal_empty", "columns_beyond_rows", "removals", "kroneckers", "crosses", "transforms", "conversions", "types", "rejections_observed"])
CHECKS["C12"] = dict(
    programs=[dict(name="c12", src="c12_rotations.cpp")],
    rule="random angles (regular, near singular, multiples of pi/2), rates, poses and states; distinct by values",
    require=["conversions", "singular_orientations", "recovered", "rates", "errors", "integrations", "small_velocities", "states", "rejections_observed"])
CHECKS["C13"] = dict(
    programs=[dict(name="c13", src="c13_models.cpp")],
    rule="random states, controls, heights, durations; distinct by values",
    require=["integrators", "interval_ends", "compositions", "pendulums", "numerical_integrations"])
CHECKS["C14"] = dict(
    programs=[dict(name="c14", src="c14_trajectories.cpp")],
    rule="random boundary conditions, durations, query times and re-initializations; distinct by values",
    require=["derivatives", "moving_ends", "resting_ends", "reinitialized", "feet", "rejections_observed"])
CHECKS["C15"] = dict(
    programs=[dict(name="c15", src="c15_stances.cpp")],
    rule="random gait configurations and histories of shifts and previews; distinct by configuration and history",
    require=["states_observed", "previews", "previews_ending_in_double_support", "stances_previewed", "previews_beyond_the_end", "empty_previews", "reused_machines", "double_supports_entered", "exact_boundaries", "long_shifts", "final_stances", "divisions", "stances_stepped", "rejections_observed"])
CHECKS["C16"] = dict(
    programs=[dict(name="c16", src="c16_config.cpp")],
    rule="random trees of entries of 22 kinds, random objects of 19 configurable classes and random hierarchies of tasks, written and read; distinct by the content of the file",
    require=["entries_written", "entries_read", "nested_sections", "several_sections", "objects_read", "objects_round_trip", "constructed", "direct_files", "prefixed_files", "tasks", "problems", "problems_reused"])
CHECKS["C17"] = dict(
    programs=[dict(name="c17_%d" % k, src="c17_faults.cpp", flags=["-fno-sanitize=enum", "-DPART=%d" % k]) for k in (1, 2, 3, 4)],
    rule="one fault per case (missing entries, wrong types and shapes, damaged bytes, unknown content, inconsistent hierarchies) in the configuration of one of 19 classes; distinct by the content of the faulty file",
    require=["missing_sections", "missing_entries", "wrong_entries", "wrong_matrices", "readers_reused", "unknown_content", "damaged_but_read", "truncated", "malformed_rejected", "files", "reads_after_rejections", "problems_rejected", "inconsistent_parameters", "rejections_observed"])
CHECKS["C18"] = dict(
    programs=[dict(name="c18_tsan", src="c18_logger.cpp", flavour="tsan"), dict(name="c18_asan", src="c18_logger.cpp"), dict(name="c18_plain", src="c18_logger.cpp", flags=["-DVH_NO_LOG_THREADS"])],
    rule="random histories of logging (kinds of data, names, pauses, outputs, producers, moments of destruction) with injected delays; distinct by the names and kinds of entries or by the observed interleaving",
    require=["entries_read", "logged_before_initialization", "destroyed_at_once", "destroyed_later", "files", "delays", "outputs", "file_after_file", "failed_initializations", "global_logger", "burst_entries", "concurrent_entries", "interleavings", "objects", "hierarchies", "violations_and_active_sets", "rejections_observed"])
CHECKS["C19"] = dict(
    programs=[dict(name="c19", src="c19_wpg.cpp", flags=["-fno-sanitize=null,pointer-overflow"])],
    rule="random walks (gaits, horizons, sampling, initial states, gains, disturbances, changes of the command) driven by a reference QP solver or by arbitrary solutions; distinct by parameters and course",
    require=["predictions", "feet_configured", "solved", "active_constraints", "instants", "landings", "landings_predicted", "whole_intervals", "subsampled", "walks_ended", "walks_completed", "steps_left_horizon", "steps_entered_horizon", "guesses", "disturbances", "commands_changed", "horizon_changes", "steps", "rejections_observed"])
CHECKS["C20"] = dict(
    programs=[dict(name="c20", src="c20_base.cpp", flags=["-fno-sanitize=null,pointer-overflow"])],
    rule="random motions (queues of references, horizons, sampling, states, masses, bounds, gains, hierarchies read from files, disturbances) driven by a reference QP solver or by arbitrary solutions; distinct by parameters and course",
    require=["predictions", "robots_configured", "hierarchies_configured", "motions_ended", "queues_shifted", "guesses", "solved", "active_constraints", "instants_first", "instants_later", "subsampled", "whole_intervals", "disturbances", "horizon_changes", "robot_changes", "steps", "rejections_observed"])
CHECKS["C21"] = dict(
    programs=[dict(name="c21", src="c21_bridges.cpp")],
    rule="random feasible problems (mixed kinds of constraints, bounds on repeated variables) solved repeatedly through each bridge with random parameters and guesses, forced working sets and failures; distinct by the data of the problems",
    require=["optima", "with_active_inequalities", "feasible_points", "active_sets", "active_set_guesses", "solution_guesses", "rows_lower", "rows_upper", "rows_inactive", "with_general_constraints", "with_bounds", "unconstrained", "resolved", "working_sets", "garbage", "regularized", "failures", "contradictions", "refused0", "refused1", "refused2", "refused3", "refused4", "refused5", "parameters"])
CHECKS["C22"] = dict(
    programs=[dict(name="c22", src="c22_rbdl.cpp")],
    rule="random kinematic trees (mixed joints, fixed links, floating and planar roots, three representations of multi-coordinate joints) and the robots of the repository in random states; distinct by tree and state",
    require=["states", "jacobians", "fixed_links", "movable_links", "partial_coms", "partial_coms_with_fixed_links", "reloaded", "copied", "loaded_by_constructor", "loaded_after_rejection", "pepper_states", "references", "transforms", "rejections_observed"])
CHECKS["C23"] = dict(
    programs=[dict(name="c23_%d" % k, src="c23_pepper_model.cpp", flags=["-DFEATURES=%d" % k]) for k in (8, 16, 32)],
    rule="random states of the three descriptions of the robot, random motions of base and joints within and beyond the limits; distinct by states",
    require=["states", "jacobians", "yaws", "states_through_files", "limits", "fast_joints", "transitions", "fast_transitions", "commands", "refused_commands", "corrections", "complete_corrections", "reorderings", "rejections_observed"])
CHECKS["C24"] = dict(
    programs=[dict(name="c24_%d" % k, src="c24_pepper_tasks.cpp", flags=["-DFEATURES=%d" % k]) for k in (8, 16, 32)],
    rule="random states, references, velocities of tags and parameters of all tasks, reconfigured and reused in several states; closed loops of hierarchical inverse kinematics; distinct by states",
    require=["rows", "nonzero_references", "tag_velocities", "desired_poses", "pose_errors", "configurations", "configurations_copied", "defaults", "iterations", "loops_converged", "rejections_observed"] + ["task_" + t for t in ("TaskBaseCoMTracking", "TaskBaseOrientation", "TaskBodyCoMTracking", "TaskFixArms", "TaskFixHead", "TaskJointsBounds", "TaskJointsReference", "TaskTagOrientation", "TaskTagAngularVelocity", "TaskTagCompleteVelocity", "TaskTagPose", "TaskTagPose3Dof")])
CHECKS["C25"] = dict(
    programs=[dict(name="c25_write", src="c16_config.cpp", flags=["-DVH_YAML"], libs=["-lyaml-cpp"])]
        + [dict(name="c25_%d" % k, src="c17_faults.cpp", flags=["-DVH_YAML", "-fno-sanitize=enum", "-DPART=%d" % k], libs=["-lyaml-cpp"]) for k in (1, 2, 3, 4)],
    rule="random trees of entries of 22 kinds, objects of 19 configurable classes and hierarchies of tasks written and read as YAML, texts of varied styles, and one fault per case in such a text; distinct by the content of the file",
    require=["entries_written", "entries_read", "nested_sections", "several_sections", "objects_read", "objects_round_trip", "constructed", "direct_files", "prefixed_files", "tasks", "problems", "missing_sections", "missing_entries", "wrong_entries", "wrong_matrices", "readers_reused", "unknown_content", "damaged_but_read", "truncated", "files", "reads_after_rejections", "problems_rejected", "rejections_observed"])
