#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "deterministic simulation with fault injection"
what = {
 "C01": "grid and record invariants after every seeded run", "C02": "step refinement against an independent explicit Runge-Kutta step",
 "C03": "recomputed error norm and step cap per recorded step", "C04": "seeded non-finite callback faults, finiteness and status oracle",
 "C05": "seeded outages and step budgets, bounded-progress oracle", "C06": "seeded exceptions and allocation failures, leak and fresh-process comparison",
 "C07": "seeded scheduler over threads and nested calls, comparison with solo runs", "C08": "simulated clock with jumps and stalls, stopwatch reference model",
 "C09": "simulated output stream compared line by line with the accepted steps", "C10": "failing, short and full simulated sinks, comparison with perfect sinks",
 "C11": "counter conservation against the simulator's own event counts", "C12": "stage equations re-solved independently per recorded step, with seeded Jacobian faults",
 "C13": "crash and torn-tail injection, restart from the stream, reference solution", "C14": "seeded operation scripts with allocation and copy failures against a deque model",
 "C15": "formula residuals per recorded value, fresh-process comparison", "C16": "seeded internal failures, prefix and status oracle",
 "C17": "seeded function and Jacobian faults, recorded evaluation history oracle", "C18": "seeded concurrent lookup scripts with allocation failures against published tables",
 "C19": "the same seeded runs in builds with and without assertions", "C20": "seeded histories and memory fills, fresh-process and two-build comparison",
 "C21": "pairs of runs that differ only in a later fault, budget or end, compared callback by callback", "C22": "every simulated callback judged as it is made",
 "C23": "simulated allocator sampled at every callback of long faulty runs", "C24": "runs with and without diagnostics on failing sinks compared, stream state snapshots",
 "C25": "evaluations recorded under seeded faults against central differences; stage equations re-solved", "C26": "the same faulty run in two units, bitwise comparison"}
na = {"N01": "order conditions are algebra on constant tables: no schedule, time, I/O, fault or history they could depend on; a simulator has nothing to decide (C02, C12 and C18 do check the tables' numbers against independently typed ones)",
      "N02": "a pure function of one complex argument in a command line utility; no nondeterminism to put behind a seam",
      "N03": "polynomial identities of constant tables that no integrator uses; no schedule, time, I/O or fault involved",
      "N04": "pure functions of their arguments in a header of test equations; no nondeterminism to put behind a seam"}
checks = []
for p in props:
    i = p["id"]
    if i in na: continue
    checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": T + ": " + what[i], "level": "exploration",
        "level_note": "Seeded search over generated problems, configurations, fault sequences and (where there are tasks) schedules on the real compiled code; every reported violation is reproduced twice in fresh processes before it is reported and comes with a minimised replay file. No violation means none in the explored runs, not a proof. Trusts g++, Armadillo and the independent reference implementations in sim/."})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks were added to /repo: clocks, allocation, streams, threads and user functors are reached through existing interfaces and symbol interposition at link time. bin/check ID --replay FILE replays a violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
