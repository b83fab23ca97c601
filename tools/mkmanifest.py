#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"A31": "memory safety and data races are statements about the C++ abstract machine below the level a TLA+ state can express; crashes, hangs and poisoned reads that change a result are detected by the other checks (forked drivers, MALLOC_PERTURB_), and the D&C task interleavings are modelled under A07",
      "A32": "a cost bound is not a property of behaviours of a state machine over values; TLA+ has no notion of cost here"}
checks = []
for p in props:
    if p["id"] in check.CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], level="model_checking",
            technique="TLA+ specification checked with TLC; real executions (generated from TLC behaviours and seeded histories) recorded and validated as traces of the specification",
            level_note="the specification is exhaustively model-checked on small constants; the implementation is bound to it by trace validation of the histories explored, not proved for all inputs"))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in check.CHECKS]
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.dont_write_bytecode=True; import check; print(len(check.CHECKS))\"", checks=checks, not_applicable=na)
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
