#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
NA = {
 "P01": "Parsing an environment value's text is a pure function of that text: no schedule, clock, fault, I/O or interleaving takes part, so there is nothing for a simulator to decide; running inputs through it would be input generation in simulator vocabulary.",
 "P02": "Serializing and deserializing one value is a pure function of that value and the target type; no nondeterminism or fault takes part.",
 "P03": "Lossy conversion is a pure function of one value and the target type; no nondeterminism or fault takes part.",
}
TECH = {
 "C": "deterministic simulation: seeded search over thread schedules, provider failures, I/O faults and source changes, judged against a reference model of the configuration stack",
 "F": "deterministic simulation: seeded search over thread schedules, file-tree changes and I/O faults on a simulated file system, judged against the recorded file-system history",
 "E": "deterministic simulation: seeded search over thread schedules and environment changes, judged against the recorded history of the environment",
 "J": "deterministic simulation: seeded search over thread schedules, system-call faults and ways of ending, judged by invariants over the simulated process state",
 "M": "deterministic simulation: seeded search over thread schedules, file-tree and working-directory changes, judged against a reference model of the configuration stack",
 "S": "deterministic simulation: seeded search over thread schedules, working-directory changes and faults, judged against the recorded file-system history",
}
NOTE = ("Sampled, not exhaustive: a quiet result is evidence over the runs, schedules and faults its evidence file counts. "
        "The whole library runs as real code in real threads of which one at a time is let run; the file system, working directory, clock, randomness and lock waiting are simulated. "
        "Trusts the simulated file system's semantics, the format parsers as the meaning of a text, and sequential consistency between scheduling points.")
checks, na = [], []
for line in open("/verif/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": TECH[i[0]], "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hook in /repo is needed: check.sh builds /repo's working tree with a compiler wrapper (sim/wrap.sh) that adds scheduling points, and intercepts the C library's interface at link time.", "source_commits": []},
     "notes": "See DESIGN.md. known-findings.txt lists the defects found and repaired."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
