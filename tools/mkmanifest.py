#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

ENUM = "bounded exhaustive enumeration of inputs (words over length classes and boundary values) run on the real code against an executable reference model"
BASE = "Every case within the stated bounds is executed on the code built from the working tree and compared with the model; nothing is sampled. Trusts the Go toolchain, the CPU and the model in harness/ref. Not covered: inputs beyond the bounds listed in the evidence file. "

CHECKS = {
 "C01": (ENUM, BASE + "All writer x reader pairs; one stream of 5 GB over aliased memory."),
 "C02": (ENUM, BASE + "All writer x reader pairs, several start values, wrapping differences; one stream of 5 GB."),
 "C03": (ENUM, BASE + "One stream of 5 GB over aliased memory."),
 "C04": (ENUM, BASE + "One stream of 5 GB over aliased memory."),
 "C05": (ENUM, BASE + "Streams include non-minimal encodings and every value of the unused codes, and bytes behind the encoded integers; one stream of 5 GB."),
 "C06": (ENUM, BASE + "All 2^32 values, all 65536 length combinations, all neighbour pairs of a boundary alphabet."),
 "C07": (ENUM, BASE + "All 65536 control words, all values per code length."),
}
CHECKS.update(json.load(open(os.path.join(here, "tools", "checks.json"))) if os.path.exists(os.path.join(here, "tools", "checks.json")) else {})
NA = {}

checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        n = n.replace("{BASE}", BASE)
        t = t.replace("{ENUM}", ENUM)
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " thorough",
                       "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + t,
                       "level": "model_checking", "level_note": n.strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build the working tree as it is, or instrument a scratch copy of it."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
