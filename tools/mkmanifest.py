#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the harness registers (vh list) and the
properties. Usage: mkmanifest.py "<ids>"  (ids: output of `vh list`)."""
import json, sys
ids = sys.argv[1].split()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = json.load(open('/verif/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        t = T.get(i, {})
        checks.append({"property": i, "quick_cmd": "./run.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "runtime monitoring: reference-model monitor over recorded state before/after every operation of random histories"),
            "level": t.get("level", "exploration"),
            "level_note": t.get("note", "Held on the executions listed in the evidence; says nothing about inputs and schedules not produced. Trusts the Go runtime and the harness's reference computations.")})
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Known and fixed findings: known_findings.txt. No hooks in /repo: monitors observe the exported API, the RPC boundary (own codec) and the process."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not applicable")
