#!/usr/bin/env python3
"""tryseed.py ID...: check a planted bug in scratch copies: applies, builds, tests pass, demo fails with it and passes without,
and which checks see it.  --checks A01,A02 to choose checks (default: its property); --fast skips the test suite."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = {a.split("=")[0]: (a.split("=") + [""])[1] for a in sys.argv[1:] if a.startswith("--")}
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout
def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed.")
    r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    dd = w + "/demo"
    shutil.copytree(d, dd)
    out = []
    try:
        if "--nodemo" not in opt:
            rc, o = run("bash %s/demo.sh" % dd, r)
            out.append("demo on clean: %s" % rc)
            if rc: print(o[-2500:])
        rc, o = run("git apply %s/patch.diff" % d, r)
        if rc: print(i, "patch does not apply", o); return
        rc, o = run(". /opt/vp/env.sh; go build ./... && go vet ./core/... ./lib/... >/dev/null 2>&1; go build ./...", r)
        if rc: print(i, "does not build", o); return
        if "--nodemo" not in opt:
            rc, o = run("bash %s/demo.sh" % dd, r)
            out.append("demo with bug: %s" % rc)
            if rc == 0 or "build failed" in o: print(o[-1500:])
        if "--fast" not in opt:
            t = open("/opt/vp/test.sh").read().replace("W=/opt/vp/work", "W=%s/tw" % w).replace("cd /repo", "cd " + r)
            open(w + "/test.sh", "w").write(t)
            rc, o = run("bash %s/test.sh %s/o.json" % (w, w), r)
            res = json.load(open(w + "/o.json"))
            failed = sorted(stable - set(res.get("passed", res)))
            out.append("tests: %s" % ("FAIL %s" % failed if failed else "pass"))
        for c in (opt.get("--checks") or meta["property"]).split(","):
            if c == "none": continue
            rc, o = run("python3 run.py " + c, V, timeout=1500, env={"VERIF_REPO": r})
            out.append("%s: %s" % (c, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %s %s" % (rc, o[-1500:]))))
            if rc == 1 and "--v" in opt: print([l for l in o.splitlines() if "violated" in l])
        print(i, "|", "; ".join(out), flush=True)
    finally:
        shutil.rmtree(w)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(max_workers=int(opt.get("--j") or 4)) as ex:
    list(ex.map(one, args))
