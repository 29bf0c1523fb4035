#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and properties_table.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, R)
from properties_table import TABLE
NA = {"C23": "A statement about the distribution of a sampling error over all seeds as the path count grows without bound: no bounded exhaustive enumeration of executions decides a convergence rate in probability. Its deterministic ingredients are claimed instead (C07 the price is the mean of the path payoffs, C09/C10 the path law, C11/C13 the draws, C21 agreement on exhaustively enumerated path sets)."}
T = {"C03": "stateless model checking of the real code under a controlled scheduler (all interleavings within a preemption bound) with a happens-before race detector"}
checks = []
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
for i in ids:
    if i not in TABLE: NA.setdefault(i, "check not built yet"); continue
    c = TABLE[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique=T.get(i, c.get("technique", "explicit-state exploration of the real code: every execution of a bounded choice tree, each step compared with a reference model")),
        level="model_checking", level_note="Exhaustive within these bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c["assumptions"]) + ". Nothing is sampled; ASan and UBSan violations count as violations." if c.get("san", True) else "Exhaustive within these bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c["assumptions"]) + ". Nothing is sampled."))
m = dict(version=1, setup_cmd="python3 -c pass", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if k in ids],
         notes="No hooks in /repo: the checks compile /repo's sources themselves and reach them through public interfaces (scripted market data, generators, models, PDEs, matrix solvers). Genuine defects found are repaired by the fix: commits listed in known_findings.txt.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks")
