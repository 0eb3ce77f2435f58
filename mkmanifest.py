#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.json and the texts below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(H, "sim", "plan.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "C20": "The common type of two prototypes is a pure function of two values: no schedule, fault, clock or history takes part in it. Its behaviour under faults and callbacks is covered by C02-C04 and C13.",
 "C21": "Whether a cast of given values is lossless is a pure function of its input; there is nothing to schedule or fail. (What lossy-cast handlers do to control flow is C16.)",
 "C22": "Element-wise scans (missingness, equality, comparison) are pure functions of their inputs; testing them would be input generation, not simulation. They are executed under faults by C01-C05.",
 "C23": "Arithmetic and math dispatch are pure functions of their inputs with no fault, schedule or history to inject beyond those of C03/C13.",
 "C24": "Common sizes and recycling are pure functions of sizes; no nondeterminism or fault can influence the answer.",
 "C25": "Printing is a pure function of the value and of display options; no schedule or fault takes part.",
}
NOTE = json.load(open(os.path.join(H, "sim", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + NOTE[i][0],
            level="exploration", level_note=NOTE[i][1] + " Sampled, not exhaustive: a clean run is evidence over the seeds executed. Trusts R 4.3.3 itself and the simulator runtime."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="VCTRS_SIM", enable="sim/simbuild.py copies /repo's tree and installs it with -DVCTRS_SIM and --wrap linker flags into /verif/.build; the guard is off in every other build",
             source_commits=["7445109e122020dfc62f00f32d5de2f060e59421"]),
  checks=checks, not_applicable=na,
  notes="Every check rebuilds from /repo's working tree (about 9 s). `./check ID --replay FILE` replays a violation.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
