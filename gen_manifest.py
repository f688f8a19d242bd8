#!/usr/bin/env python3
"""Regenerates MANIFEST.json (run by hand when checks change)."""
import json
T = "stateless model checking of the real code: "
A = " Assumes: bounds as reported in the evidence file; the rand shim turns every draw into an enumerated choice (raw draws and replay divergences are counted and reported); cargo builds of the harness link the working tree of /repo."
C = {
 "C01": (T + "exhaustive polygons x insertion orders, exact tiling oracle", "Every simple polygon / polygon pair on the listed grids and every insertion order within the stated bound is run through the real triangulation; an exact integer oracle decides cover and disjointness."),
 "C02": (T + "exhaustive polygons x insertion orders, fuel-bounded, release and debug-assertion builds", "Every explored execution returns success; non-termination is decided by a step budget on coordinate operations and a watchdog; repeated on a build with debug assertions and overflow checks."),
 "C03": (T + "exhaustive polygons x insertion orders x all winding settings", "Sign of every delivered triangle by exact arithmetic, for default, clockwise, reversed and doubly reversed fan and list formats."),
 "C04": (T + "exhaustive polygons x insertion orders, exact edge/count oracle", "Counts triangles and matches every directed edge on every explored execution."),
 "C05": (T + "all listings (order, direction, start) of nested and disjoint polygon sets x insertion orders, even-odd oracle", "All permutations, directions and rotations of enumerated polygon sets, exact even-odd tiling oracle."),
 "C06": (T + "recorded callback sequences checked by a protocol automaton on every execution", "The callback protocol is a monitor automaton run over every explored execution; implied triangles are checked by the tiling oracle."),
 "C07": (T + "fault enumeration: an error injected at every callback of every execution", "Every callback of every explored execution is made to fail in turn (and to fail again in the failure path)."),
 "C08": (T + "fault enumeration and all call histories to a depth on real collections, reference model of contents", "Every fault position, delimiter clash, malformed input, and every sequence of calls to the stated depth on each built-in format."),
 "C09": (T + "all formats replayed on identical draws, compared element by element", "Differential: every format and container under the same enumerated draws."),
 "C10": (T + "all vertex/separator sequences to a length, reference parser", "Every sequence of vertices and separators to the stated length in every representation against a reference splitter."),
 "C11": (T + "all representations replayed on identical draws", "Differential over 42 representations under the same enumerated draws, plus every refused index conversion."),
 "C12": (T + "all operation sequences on a stored trapezoidation", "Chains, pairs and triples of operations (formats, failing, panicking) on stored trapezoidations compared with one-step results."),
 "C13": (T + "all vertex sequences (invalid, non-finite) x insertion orders, release, ub-check and debug builds", "Exhaustive invalid inputs on small alphabets; out-of-bounds accesses abort in the ub-check build; output rollback and later calls are checked."),
 "C14": (T + "all call histories, all nesting points, all two-thread schedules within a preemption bound", "Cooperative scheduler over every user-visible step (coordinate operation, vertex access, callback); compares with isolated runs."),
 "C16": (T + "exact average work over all insertion orders of short polygons; growth of work and memory over enumerated long polygons and orders", "Counts coordinate operations, peak memory and (in a simulator) instructions of every explored execution; averages are exact over all orders of the small polygons; for long ones a fixed enumerated set of well-mixed orders stands in for all of them, and growth with n is bounded between sizes, so an asymptotic claim is decided only up to those sizes."),
 "C15": (T + "all diagnostic configurations x executions, differential against the build without the feature", "72 environment configurations in separate processes and scratch directories; results and files compared after every execution."),
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "technique": t, "level": "model_checking", "level_note": n + A} for k, (t, n) in C.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: nondeterminism is owned by patched copies of rand and backtrace in /verif/shim. Four fix: commits in /repo, see known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
