#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl that has a checker."""
import json, sys, os, subprocess
import check, build
V = build.V
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = set(sys.argv[1:]) if len(sys.argv) > 1 else {p["id"] for p in props}
TECH_SEQ = "exhaustive enumeration of inputs and operation sequences on the real classes against a reference model (bounded explicit-state model checking)"
TECH_SIM = "stateless model checking of the real code: all schedules and environment answers up to a deviation bound over a simulated kernel bound to the real one by trace conformance"
NOTE_SEQ = "Every case of the listed spaces, none sampled, is run on the real classes under AddressSanitizer and UBSan and compared with an independent reference model. Assumes a little-endian host and the reference model in /verif/seq/ref.hpp; no claim outside the stated alphabets and bounds."
NOTE_SIM = "Every schedule and environment answer of the listed scenarios within the deviation bound reported in the evidence is executed on the real code. Trusts the controlled runtime and the simulated kernel (replayed against the real kernel for every syscall sequence of up to 4 operations); sequentially consistent memory; no claim beyond the scenarios and bounds."
EXTRA = {"C24": " Leaks, descriptor misuse and remaining threads are monitored in every scenario of every property.", "C25": " Happens-before race detection on every memory access of the library in every execution of every scenario."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in claimed: na.append(dict(property=i, reason="no check yet")); continue
    s = i in check.SEQ
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique=TECH_SEQ if s else TECH_SIM, level="model_checking", level_note=(NOTE_SEQ if s else NOTE_SIM) + EXTRA.get(i, "")))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na, notes="See DESIGN.md. Known and repaired defects: KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
