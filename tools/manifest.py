#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks are the properties that have a harness package."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools/not_applicable.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.isdir(os.path.join(V, 'harness', p.lower())):
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": "bounded symbolic execution of the real code (go/ssa of /repo's working tree) with SMT (z3); counterexamples replayed against the compiled code",
            "level": "model_checking",
            "level_note": "Decided by the solver for every value within the bounds the evidence states (sizes, numbers of messages, goroutines and reads); beyond them nothing is claimed. The Go runtime, part of the standard library, the clock and, for the file server, the host file system are models (see DESIGN.md).",
        })
    else:
        na.append({"property": p, "reason": "No check has been built for it yet."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses are laid over it (go/packages and go build overlays). known-findings.txt lists what was found in the code and repaired."}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
