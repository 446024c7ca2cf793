#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and checks.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], observe=observe or [], technique=technique, note=note, na=na))


C = "core/include/humoto/"
TESTS = "The 12 stable tests are one gtest program with a handful of fixed tasks and levels; "

prop("C01", "The QP objective is the weighted sum of the tasks' squared residuals",
     "For any level of equality tasks of any kinds, sizes and order, the quadratic objective handed to a QP solver differs from "
     "the sum over the tasks of half the squared norm of the task residual only by a constant, for every value of the variables. "
     "The Hessian is symmetric, the objective does not depend on the order of the tasks in the level, and a Hessian is announced as diagonal "
     "only if it is diagonal.",
     ["inputs", "programs"], "all levels of equality tasks (every mix of task kinds), all variable vectors",
     TESTS + "none evaluates the objective at random points or covers mixes of task kinds.",
     [C + "qp_problem.h", C + "constraints.h", C + "constraints_mixins.h", C + "hierarchy_level.h"],
     [("objective forming", C + "hierarchy_level.h: getObjective"), ("per-kind A'A and A'b", C + "constraints.h: addATAandATb")],
     observe=["Hessian and gradient of the formed QP"],
     technique="randomized runtime monitoring of the formed objective against a residual-sum oracle, under ASan+UBSan")
prop("C02", "Constraints handed to a solver describe exactly the tasks' feasible set",
     "For any level of tasks of any kinds, a point satisfies the constraints in whichever form they are extracted for a solver (equalities, one-sided inequalities, "
     "two-sided inequalities, bounds on variables) exactly when it satisfies every task of the level. "
     "Extraction leaves nothing over from an earlier problem formed in the same containers, and contradictory simple bounds on one variable are rejected by an exception rather than handed to a solver.",
     ["inputs", "programs", "histories"], "all levels, all points, all sequences of problems formed in the same container",
     TESTS + "feasibility of points in the extracted form is never compared with the tasks.",
     [C + "qp_problem.h", C + "constraints.h", C + "constraints_base.h", C + "constraints_mixins.h", C + "hierarchy_level.h", C + "hierarchy.h"],
     [("extraction of general constraints and bounds", C + "constraints.h: copyTo"), ("QP assembly", C + "hierarchy.h: getQPProblem")],
     observe=["the extracted matrices and vectors"],
     technique="randomized runtime monitoring: membership probes of extracted constraints vs. task definitions, under ASan+UBSan")
prop("C03", "Violations and active sets are determined exactly by the task and the point",
     "For any task and any point, the reported violation of each constraint is the signed distance by which the constraint value leaves its bounds (zero when it is within them), "
     "all violations are zero exactly at points satisfying the task, and the determined activation of a constraint is equality, lower bound, upper bound or inactive "
     "according to whether the value reaches the respective bound within the stated tolerance.",
     ["inputs", "programs"], "all tasks of all kinds, all points, all tolerances",
     TESTS + "violations are computed for a few constants and points exactly on a bound are not sampled.",
     [C + "task.h", C + "violations.h", C + "active_set.h", C + "constraints.h", C + "constraints_mixins.h"],
     [("violations", C + "constraints.h: computeViolations"), ("activation", C + "constraints.h: determineActiveSet")],
     technique="randomized runtime monitoring against a per-row definition oracle, under ASan+UBSan")
prop("C04", "Active set information reaches exactly the constraint it belongs to",
     "An active set returned by a solver for a hierarchy is handed to each task as exactly the activations of that task's own constraints, and the initial guess assembled for the next problem "
     "contains for each constraint the guess made by its own task (or the default one: equality for equality tasks, inactive otherwise), in the position of that constraint. "
     "This holds for any hierarchy and any sequence of problems whose tasks change size, and information of wrong size is rejected by an exception.",
     ["inputs", "histories"], "all hierarchies, all active sets, all sequences of problems",
     TESTS + "active set hand-over between problems of different structure is not exercised.",
     [C + "hierarchy.h", C + "hierarchy_level.h", C + "task.h", C + "active_set.h", C + "utility.h"],
     [("distribution", C + "hierarchy.h: processActiveSet"), ("guess", C + "hierarchy.h: initializeActiveSet/guessActiveSet")],
     technique="randomized runtime monitoring of tagged active sets over problem histories, under ASan+UBSan")
prop("C05", "Named parts of a solution map to disjoint locations and are carried over intact",
     "Every named part of a solution occupies its own contiguous range, the ranges cover the vector without gaps or overlaps in the order of declaration, and access by name or location reads exactly that range. "
     "When a guess is initialized from an old solution of another structure, each part present in both with the same size keeps its values and every other entry is zero; "
     "an unknown name denotes an empty part, and access beyond the end of the solution is rejected by an exception.",
     ["inputs", "histories"], "all solution structures, all pairs of structures",
     TESTS + "solution structures are built with one or two fixed parts.",
     [C + "solution.h", C + "utility.h"],
     [("parts", C + "solution.h: addSolutionPart"), ("carry-over", C + "solution.h: initialize")],
     technique="randomized runtime monitoring against a map-based model, under ASan+UBSan")
prop("C06", "Malformed problems are rejected by exceptions, never by undefined behaviour",
     "A task with mismatching matrix and vector sizes, a hierarchy whose tasks disagree on the number of variables, an empty hierarchy or a hierarchy unsupported by the requested form is rejected by a "
     "C++ exception when the problem is formed. No such input leads to memory errors, failed library assertions or a silently wrong problem, and a well-formed problem formed afterwards is correct.",
     ["inputs"], "all combinations of wrong sizes and malformed hierarchies",
     TESTS + "only well-formed problems are used.",
     [C + "constraints.h", C + "constraints_base.h", C + "constraints_mixins.h", C + "hierarchy_level.h", C + "qp_problem.h", C + "hierarchy.h"],
     [("checks", C + "constraints.h: checkConsistency"), ("level checks", C + "hierarchy_level.h: form")],
     technique="hostile input generation under ASan+UBSan with assertions turned into violations")
prop("C07", "A solver returns the true optimum or reports failure by an exception",
     "For every equality-constrained problem with a unique optimum, the built-in solver returns that optimum with each of its solution methods (the rank-revealing QR method also when constraints consistently repeat each other), with the part of the solution for each variable and the return status filled in. "
     "Solving is repeatable and independent of problems solved before with the same object, requests outside a solver's abilities and failed solutions are reported by exceptions through every entry point when so configured, "
     "and every solver reset or solve acts on the problem it was given.",
     ["inputs", "configurations", "histories"], "all strictly convex equality-constrained problems, solution methods, entry points and solve histories",
     TESTS + "solvers are not exercised by the stable tests at all.",
     [C + "solver.h", "core/include/kktsolver.h"],
     [("KKT solver", "core/include/kktsolver.h"), ("protocol", C + "solver.h: solve")],
     technique="randomized runtime monitoring: KKT optimality certificate and solver-protocol trace checker with injected solver faults, under ASan+UBSan")
prop("C08", "Re-forming a problem gives the same result as building it from scratch",
     "Forming a problem again after any sequence of changes of its tasks, their data, gains or the solution structure yields the same matrices, solution and active set information as forming an identical freshly built problem. "
     "The stock tasks (zero variables, fixed variables, infeasible task) constrain exactly the variables they were given, with the gain and values currently configured.",
     ["histories", "inputs"], "all sequences of changes and formings of the same objects",
     TESTS + "each test forms its problem once.",
     [C + "hierarchy.h", C + "hierarchy_level.h", C + "task.h", C + "task_generic.h"],
     [("incremental forming", C + "hierarchy.h: form"), ("stock tasks", C + "task_generic.h")],
     technique="differential runtime monitoring: long histories vs. fresh objects, under ASan+UBSan")
exec(open(os.path.join(VERIF, "bin", "props_more.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=p["state"], observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"] is None and p["id"] in CHECKS:
            checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
                               technique=p["technique"], level="exploration",
                               level_note=p["note"] or "Holds on every execution observed; the generators' reach is reported in the evidence. Trusts the reference oracle in the harness, the compiler and the sanitizers.",
                               evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")


main()
