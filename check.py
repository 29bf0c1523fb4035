#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- builds /repo's current tree with the property's harness, explores
exhaustively, writes evidence/<property>.json. Exit 0: held on everything explored; 1: VIOLATION line; 2: error.
check.py --replay <file>  -- runs a recorded counterexample again."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
CXX = "/usr/bin/g++"
JOBS = max(2, os.cpu_count() or 8)
BASE = ["-std=c++20", "-include", "cmath", "-include", "stdexcept", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-w"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FAST = ["-O2", "-g0"]
ALL = ["market_data", "payoff", "option", "random", "model", "numerical_analysis", "solver"]
sys.path.insert(0, ROOT)
from properties_table import TABLE      # id -> dict(src, modules, san, assumptions, bounds, ...)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:32]
def rd(p):
    with open(p, "rb") as f: return f.read()
def tree_hash(d, pats):
    h = []
    for pat in pats:
        for p in sorted(glob.glob(os.path.join(d, "**", pat), recursive=True)):
            if os.path.isfile(p): h.append((p, hashlib.sha256(rd(p)).hexdigest()))
    return sha(json.dumps(h))

class BuildError(Exception): pass

def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj): return
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode: raise BuildError("%s\n%s" % (src, (r.stdout + r.stderr)[-6000:]))
    os.replace(tmp, obj)

def build(cfg, everything=False):
    """Compiles the needed modules of /repo and the harness; objects are cached by content."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    opt = cfg.get("opt") or (SAN if cfg.get("san", True) else FAST)
    flags = BASE + opt + cfg.get("cflags", [])
    inc = tree_hash(REPO + "/include", ["*"])
    harn = tree_hash(ROOT + "/harness", ["*.hpp"])
    ver = rd("/usr/bin/g++-13" if os.path.exists("/usr/bin/g++-13") else CXX)[:64]
    jobs, objs = [], []
    srcs = [s for m in cfg["modules"] for s in sorted(glob.glob(REPO + "/src/" + m + "/**/*.cpp", recursive=True))]
    if everything: srcs = [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if not re.search(rb"\bint\s+main\s*\(", rd(s))]
    for s in srcs:
        f = flags + cfg.get("repo_cflags", {}).get(os.path.relpath(s, REPO + "/src"), cfg.get("repo_cflags_all", []))
        o = BUILD + "/obj/" + sha(ver, inc, rd(s), s, json.dumps(f)) + ".o"
        jobs.append((s, o, f)); objs.append(o)
    for n in cfg["src"]:
        s = ROOT + "/harness/" + n
        f = flags + ["-I" + ROOT + "/harness"] + cfg.get("harness_cflags", [])
        if n in cfg.get("plain", []): f = BASE + ["-O1", "-g1", "-I" + ROOT + "/harness"]
        o = BUILD + "/obj/" + sha(ver, inc, harn, rd(s), s, json.dumps(f)) + ".o"
        jobs.insert(0, (s, o, f)); objs.append(o)
    with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(compile_one, jobs))
    exe = BUILD + "/" + sha(json.dumps(objs), json.dumps(cfg.get("ldflags", [])), json.dumps(opt))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, *[x for x in opt if x.startswith("-f")], *objs, "-o", tmp, "-pthread", *cfg.get("ldflags", [])], capture_output=True, text=True)
        if r.returncode:                   # a module may have come to need another one
            if not everything: return build(cfg, True)
            raise BuildError((r.stdout + r.stderr)[-6000:])
        os.replace(tmp, exe)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=8:allocator_may_return_null=1:quarantine_size_mb=32",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")

def read_crumb(path, units):
    import struct
    b = rd(path)
    unit, ln = struct.unpack_from("ii", b, 0)
    off = 44                               # offsetof(Shared, choices)
    ch = list(struct.unpack_from("%di" % ln, b, off)) if 0 <= ln <= 65536 else []
    return (units[unit] if 0 <= unit < len(units) else "?"), ch

def replay(exe, tier, unit, choices, hang=120):
    r = subprocess.run([exe, "replay", "--tier", tier, "--unit", unit, "--choices", ",".join(map(str, choices)), "--hang", str(hang)],
                       capture_output=True, text=True, env=ENV, errors="replace")
    line = [l for l in r.stdout.splitlines() if l.startswith('{"kind"')]
    if r.returncode == 0: return None, (json.loads(line[-1]) if line else None)
    if r.returncode == 1 and line: return json.loads(line[-1]), None
    if r.returncode == 98: raise RuntimeError("harness error in replay: " + r.stderr[-2000:])
    what = "hang" if r.returncode == 97 else "crash"
    return dict(kind="violation", unit=unit, choices=choices, message="%s of the implementation (exit %d)" % (what, r.returncode),
                trace=[l for l in r.stderr.splitlines() if l.strip()][:60]), None

def run_shards(exe, tier, tmp, extra=(), nsh=JOBS, only=None):
    """Runs the shards; returns (unit stats, violation or None, dead shards)."""
    procs = []
    for i in (range(nsh) if only is None else [only]):
        out = open("%s/out%d" % (tmp, i), "w"); err = open("%s/err%d" % (tmp, i), "w")
        procs.append((i, subprocess.Popen([exe, "run", "--tier", tier, "--shard", str(i), "--of", str(nsh), "--crumb", "%s/crumb%d" % (tmp, i),
                                           "--states", "%s/st%d" % (tmp, i), *extra], stdout=out, stderr=err, env=ENV)))
    bad = []
    try:
        live = dict(procs)
        while live:
            for i, p in list(live.items()):
                rc = p.poll()
                if rc is None: continue
                del live[i]
                if rc != 0: bad.append((i, rc))
            if bad: break
            time.sleep(0.05)
    finally:
        for i, p in procs:
            if p.poll() is None: p.kill(); p.wait()
    stats = []
    for i, p in procs:
        for l in open("%s/out%d" % (tmp, i)):
            if l.startswith('{"kind":"unit"'): stats.append(json.loads(l))
    return stats, bad

def first_violation(tmp, i, rc, exe, tier, units):
    """The violation shard i stopped at: from its output, or from its crumb when it died."""
    for l in open("%s/out%d" % (tmp, i), errors="replace"):
        if l.startswith('{"kind":"violation"'): return json.loads(l)
    unit, ch = read_crumb("%s/crumb%d" % (tmp, i), units)
    err = open("%s/err%d" % (tmp, i), errors="replace").read()
    return dict(kind="violation", unit=unit, choices=ch, message="worker %s (exit %d)" % ("hung" if rc == 97 else "died", rc),
                trace=[l for l in err.splitlines() if l.strip()][-60:], died=True)

def main():
    if sys.argv[1:2] == ["--replay"]:
        v = json.load(open(sys.argv[2])); exe = build(TABLE[v["property"]])
        got, ok = replay(exe, v["tier"], v["unit"], v["choices"])
        print(json.dumps(got or ok, indent=1)); return 1 if got else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = TABLE[pid]
    t0 = time.time()
    try: exe = build(cfg)
    except BuildError as e:
        print("BUILD-ERROR " + str(e)); return 2
    tb = time.time() - t0
    units = subprocess.run([exe, "list", "--tier", tier], capture_output=True, text=True, env=ENV).stdout.split("\n")[:-1]
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid, dir=BUILD)
    try:
        stats, bad = run_shards(exe, tier, tmp)
        vio = None
        if bad:
            i, rc = bad[0]
            if rc == 98:
                print("HARNESS-ERROR", open("%s/err%d" % (tmp, i)).read()[-3000:]); return 2
            v = first_violation(tmp, i, rc, exe, tier, units)
            got, _ = replay(exe, tier, v["unit"], v["choices"])       # replay before report
            if got: vio = got; vio["confirmed"] = "replayed alone in a fresh process"
            else:
                # needs the history of the worker: run that worker again from the start
                st2, bad2 = run_shards(exe, tier, tmp, only=i, nsh=JOBS)
                if bad2 and bad2[0][1] != 98:
                    vio = first_violation(tmp, i, bad2[0][1], exe, tier, units)
                    vio["confirmed"] = "repeated by running worker %d of %d again (depends on earlier executions)" % (i, JOBS)
                else: vio = v; vio["confirmed"] = "seen once, not repeated: the implementation does not behave the same in every run"
        wall = time.time() - t0
        if vio:
            os.makedirs(ROOT + "/evidence/replays", exist_ok=True)
            vio.update(property=pid, tier=tier)
            rp = "%s/evidence/replays/%s-%s.json" % (ROOT, pid, sha(json.dumps(vio["choices"]), vio["unit"])[:8])
            json.dump(vio, open(rp, "w"), indent=1)
            print("unit %s: %s" % (vio["unit"], vio["message"]))
            for l in vio.get("trace", [])[:80]: print("   ", l)
        agg = {}
        for s in stats:
            a = agg.setdefault(s["unit"], dict(executions=0, transitions=0, max_choices=0, deviation_bound=s["deviations"], worker_s=0.0))
            a["executions"] += s["executions"]; a["transitions"] += s["transitions"]; a["max_choices"] = max(a["max_choices"], s["max_depth"]); a["worker_s"] = round(max(a["worker_s"], s["wall"]), 2)
        for a in agg.values():
            if a["deviation_bound"] < 0: a["deviation_bound"] = "none: full tree"
        nst = int(subprocess.run([exe, "merge"] + glob.glob(tmp + "/st*"), capture_output=True, text=True, env=ENV).stdout or 0)
        samples = []
        if not vio:
            for u in units[:: max(1, len(units) // 4)][:5]:
                cand = sorted((s["sample"] for s in stats if s["unit"] == u and s["executions"]), key=lambda c: (len([k for k in c if k]), c))
                _, ok = replay(exe, tier, u, cand[-1] if cand else [])
                if ok: samples.append(dict(unit=u, choices=ok["choices"][:60], trace=ok["trace"][:40]))
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=nst, transitions=sum(a["transitions"] for a in agg.values()),
                                traces_validated_against_impl=sum(a["executions"] for a in agg.values()),
                                samples=samples or [dict(violation=vio)], exhaustive=vio is None, units=agg,
                                bounds=cfg.get("bounds", ""), state_meaning=cfg.get("state_meaning", "distinct observed results and configurations (64-bit hashes)"),
                                method="explicit exploration of the real code: every execution of every unit's choice tree within the bounds; each trace runs on /repo's implementation and is compared with the reference model on every step",
                                workers=JOBS, build_s=round(tb, 1)),
                  assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=1 if vio else 0)
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (ROOT, pid), "w"), indent=1)
        print("%s %s: units=%d executions=%d transitions=%d states=%d build=%.1fs wall=%.1fs" % (pid, tier, len(agg),
              ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["transitions"], nst, tb, wall))
        if vio:
            print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
