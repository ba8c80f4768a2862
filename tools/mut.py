#!/usr/bin/env python3
"""mut.py [PREFIX...] [--tests] [--j=N] [--checks=A,B]: applies each mutation of tools/mutations.py to a scratch copy of /repo and runs
the check of its property on it.  A sensitivity table for the checks; nothing in the checks reads it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from mutations import MUTS
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = {a.split("=")[0]: (a.split("=") + [""])[1] for a in sys.argv[1:] if a.startswith("--")}
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x)
def one(m):
    mid, prop, edits, what = m
    w = tempfile.mkdtemp(prefix="mut.")
    r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    try:
        for f, a, b in edits:
            s = open(r + "/" + f).read()
            if s.count(a) < 1: print("%-10s EDIT NOT FOUND in %s: %r" % (mid, f, a[:60]), flush=True); return
            open(r + "/" + f, "w").write(s.replace(a, b, 1))
        rc, o = run(". /opt/vp/env.sh; go build ./...", r)
        if rc: print("%-10s DOES NOT BUILD %s" % (mid, o[-600:]), flush=True); return
        res = []
        if "--tests" in opt:
            t = open("/opt/vp/test.sh").read().replace("W=/opt/vp/work", "W=%s/tw" % w).replace("cd /repo", "cd " + r)
            open(w + "/test.sh", "w").write(t)
            run("bash %s/test.sh %s/o.json" % (w, w), r)
            q = json.load(open(w + "/o.json"))
            failed = sorted(stable - set(q.get("passed", q)))
            res.append("tests " + ("FAIL %s" % failed if failed else "pass"))
        for c in (opt.get("--checks") or prop).split(","):
            t0 = time.time()
            rc, o = run("python3 run.py " + c, V, timeout=1500, env={"VERIF_REPO": r})
            v = [l for l in o.splitlines() if "violated" in l][:1]
            res.append("%s %s %.0fs %s" % (c, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %s %s" % (rc, o[-700:])), time.time() - t0, v[0][:150] if v else ""))
        print("%-10s | %s | %s" % (mid, what, "; ".join(res)), flush=True)
    finally:
        shutil.rmtree(w)
from concurrent.futures import ThreadPoolExecutor
sel = [m for m in MUTS if not args or any(m[0] == a or ("-" not in a and m[0].startswith(a)) for a in args)]
with ThreadPoolExecutor(max_workers=int(opt.get("--j") or 3)) as ex:
    list(ex.map(one, sel))
