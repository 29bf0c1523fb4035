#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the definitions in tools/seeds.py (old/new text per file, demo program)."""
import json, os, shutil, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, PRELUDE
W = "/tmp/seedwt"
LIBS = '-L"$PWD/lib" -Wl,-rpath,"$PWD/lib" -Wl,--start-group -lsolver -lmodel -lrandom -lnumerical_analysis -loption -lpayoff -lmarketdata -Wl,--end-group '
subprocess.run(["rm", "-rf", W]); subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only: continue
    for f, old, new in s["edits"]:
        t = open(W + "/" + f).read()
        if t.count(old) != 1: sys.exit("%s: %d matches of %r in %s" % (s["id"], t.count(old), old, f))
        open(W + "/" + f, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    D = R + "/seeded/" + s["id"]; os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(d)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
    open(D + "/demo.cpp", "w").write(PRELUDE + s["demo"])
    open(D + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo after the build; 0: behaves as promised
set -e
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
/usr/bin/g++ -std=c++20 -O1 -w -include cmath -include stdexcept -I"$PWD/include" -I/usr/include/eigen3 %s"$here/demo.cpp" -o "$tmp/demo" %s-pthread -ldl
cd "$tmp"; timeout 250 ./demo
''' % (s.get("flags", ""), s.get("libs", LIBS)))
    os.chmod(D + "/demo.sh", 0o755)
subprocess.run(["rm", "-rf", W])
