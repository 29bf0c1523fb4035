#!/bin/bash
# tools/run_seeds.sh [ids...]: for every planted bug: build, stable tests, demo and its check with the patch, then without. Uses /repo.
cd /verif; [ $# -gt 0 ] || set -- $(ls seeded)
base() { python3 - <<'P'
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/o.json"))
s=b.get("stable") or b.get("passed") or b.get("tests") or b
print("tests ok" if set(s)<=set(r["passed"]) else "TESTS FAIL %s" % (set(s)-set(r["passed"])))
P
}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build fails"; exit 1; }
for i in "$@"; do (cd /repo; bash /verif/seeded/$i/demo.sh >/tmp/d.log 2>&1); c=$?; [ $c = 0 ] || { echo "$i: demo $c on the unchanged tree: $(tail -2 /tmp/d.log)"; }; done
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/b.log 2>&1; then
    bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; t=$(base)
    (cd /repo; bash /verif/seeded/$i/demo.sh >/tmp/d.log 2>&1); d=$?
    s=$(date +%s); python3 check.py $p quick >/tmp/c.log 2>&1; c=$?
    echo "$i $p: $t; demo $d; check $c $(( $(date +%s)-s )) s $(grep -m1 VIOLATION /tmp/c.log)"
  else echo "$i: does not build"; fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/b.log 2>&1
