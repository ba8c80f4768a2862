"""Runner shared by all checks: builds the driver from /repo's working tree, runs scenarios through the real
code, and has TLC decide the recorded traces against the specification."""
import json, os, shutil, subprocess, sys, tempfile, threading, time, signal, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = os.cpu_count() or 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")
DEBUG = os.environ.get("VERIF_DEBUG")

GOENV = dict(os.environ)
GOENV.update({
    "PATH": "/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": os.environ.get("HOME", "/root"), "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "CGO_ENABLED": "0",
    "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOSUMDB": "off",
})
GOENV.pop("GOROOT", None)


class CheckError(Exception):
    pass


_work = None


def blockers(dump):
    """the goroutines that keep virtual time from passing come first"""
    gs = dump.split("\n\n")
    gs.sort(key=lambda g: 0 if "synctest bubble" in g and "(durable)" not in g.split("\n")[0] else 1 if "synctest bubble" in g else 2)
    return "\n\n".join(gs)


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif.")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True) if not DEBUG else print("work kept:", _work))
    return _work


_procs = set()


def _kill_all(*_):
    for p in list(_procs):
        try:
            p.kill()
        except Exception:
            pass
    sys.exit(3)


signal.signal(signal.SIGTERM, _kill_all)


def say(*a):
    print(*a, flush=True)


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def sh(cmd, cwd=None, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


# ----------------------------------------------------------------------------------------------------- build

SITES = []   # yield point -> file:line:function


class Driver:
    """The instrumented driver binary."""

    def __init__(self, instrument=True):
        self.instrument = instrument
        self.sites = []
        self.instrumented = False
        self.bin = None
        self.bad = [0]

    def build(self):
        w = work()
        h = os.path.join(w, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        gm = open(os.path.join(REPO, "go.mod")).read().splitlines()
        out = []
        for l in gm:
            if l.startswith("module "):
                l = "module verifharness"
            elif l.startswith("go "):
                l = "go 1.25.0"
            elif l.startswith("toolchain"):
                continue
            out.append(l)
        out += ["require github.com/pojol/braid v0.0.0", "replace github.com/pojol/braid => " + REPO]
        open(os.path.join(h, "go.mod"), "w").write("\n".join(out) + "\n")
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        dirs = ["core", "lib", "router/msg", "3rd/redis"]
        bins = os.path.join(w, "drv.test")

        pre = None
        if self.instrument:
            # compile the third-party dependencies while the instrumenter is built and run
            pre = subprocess.Popen(["go", "build", "-o", os.devnull, "./deps"], cwd=h, env=GOENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ov = os.path.join(w, "ov")
            os.mkdir(ov)
            # yield points before every statement and inside read-modify-writes and conditions, or only the former
            for extra in ({}, {"INSTR_SIMPLE": "1"}):
                r = sh(["go", "run", "./instr", REPO, ov] + dirs, cwd=h, env=dict(GOENV, **extra))
                if pre is not None:
                    pre.wait()
                    pre = None
                if r.returncode == 0:
                    log("instr:", r.stdout.strip())
                    r = sh(["go", "test", "-c", "-vet=off", "-overlay", os.path.join(ov, "overlay.json"), "-o", bins, "./drv"], cwd=h, env=GOENV)
                    if r.returncode == 0 and os.path.exists(bins):
                        self.instrumented = True
                        self.sites = json.load(open(os.path.join(ov, "sites.json")))
                        SITES[:] = [""] + self.sites
                        break
                log("instrumented build failed %s:\n%s" % (extra, r.stdout[-3000:]))
            if not self.instrumented:
                log("instrumented build failed, using the plain build:\n" + r.stdout[-3000:])
        if not self.instrumented:
            r = sh(["go", "test", "-c", "-vet=off", "-o", bins, "./drv"], cwd=h, env=GOENV)
            if r.returncode != 0 or not os.path.exists(bins):
                raise CheckError("driver does not build:\n" + r.stdout[-4000:])
        self.bin = bins
        log("driver built, instrumented=%s, %d sites" % (self.instrumented, len(self.sites)))

    # run scenarios; returns list of event lists (index-aligned), and dict of hits
    def run(self, family, scns, shards=NCPU, limit=20, per_call_timeout=None, deadline=None):
        n = len(scns)
        if per_call_timeout is None:
            per_call_timeout = 400 if TIER != "thorough" else 7200
        traces = [None] * n
        hits = [None] * n
        err = []
        bad = self.bad  # crashed and stuck scenarios: enough of them settle the matter
        lock = threading.Lock()
        groups = [list(range(i, n, shards)) for i in range(min(shards, n))]

        def job(gi, idxs):
            todo = list(idxs)
            attempt = 0
            stuck_once = set()
            while todo and bad[0] < 8:
                attempt += 1
                out = os.path.join(work(), "out.%s.%d.%d.%d" % (family, id(idxs) & 0xffffff, gi, attempt))
                jf = out + ".job"
                json.dump({"family": family, "out": out, "scenarios": [scns[i] for i in todo], "idx": todo, "limit": limit}, open(jf, "w"))
                env = dict(os.environ)
                env.update({"JOB": jf, "GOMAXPROCS": "2", "GOTRACEBACK": "all", "GODEBUG": ""})
                errf = open(out + ".err", "w")
                p = subprocess.Popen([self.bin, "-test.run", "^TestWorker$", "-test.timeout", "0"], cwd=work(), env=env,
                                     stdout=subprocess.DEVNULL, stderr=errf)
                _procs.add(p)
                try:
                    rc = p.wait(timeout=per_call_timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    with lock:
                        err.append("worker timed out")
                    return
                finally:
                    _procs.discard(p)
                errf.close()
                cur = {}
                done = set()
                if os.path.exists(out):
                    for line in open(out):
                        try:
                            ev = json.loads(line)
                        except ValueError:
                            continue
                        s = ev.pop("s")
                        if ev.get("e") == "done":
                            done.add(s)
                            hits[s] = ev.get("hits")
                        else:
                            cur.setdefault(s, []).append(ev)
                for s in done:
                    traces[s] = cur.get(s, [])
                rest = [i for i in todo if i not in done]
                errtxt = open(out + ".err", errors="replace").read()
                for f in (out, jf, out + ".err"):
                    try:
                        os.unlink(f)
                    except OSError:
                        pass
                if rc == 0 and not rest:
                    return
                if rc == 98 or not rest:
                    with lock:
                        err.append("harness error rc=%s: %s" % (rc, errtxt[-3000:]))
                    return
                s = rest[0]
                part = cur.get(s, [])
                lastt = part[-1]["t"] if part else 0
                if rc in (96, 97):
                    if rc == 96:
                        part = part[:300]
                    if s not in stuck_once:      # reproduce before believing it
                        stuck_once.add(s)
                        todo = rest
                        continue
                    part.append({"e": "stuck", "t": lastt, "n": len(part), "why": blockers(errtxt)[:6000]})
                    log("scenario %d stuck" % s)
                elif rc in (-9, -15):
                    with lock:
                        err.append("worker killed rc=%s" % rc)
                    return
                else:
                    why = errtxt[-6000:]
                    k = errtxt.find("panic:")
                    k2 = errtxt.find("fatal error:")
                    ks = [x for x in (k, k2) if x >= 0]
                    if ks:
                        why = errtxt[min(ks):min(ks) + 6000]
                    if not part and not ks:
                        with lock:
                            err.append("worker died rc=%s before doing anything: %s" % (rc, errtxt[-3000:]))
                        return
                    part.append({"e": "crash", "t": lastt, "n": len(part), "why": why})
                    log("scenario %d crashed: %s" % (s, why[:300].replace("\n", " | ")))
                traces[s] = part
                todo = rest[1:]
                with lock:
                    bad[0] += 1

        with ThreadPoolExecutor(max_workers=len(groups) or 1) as ex:
            for f in [ex.submit(job, gi, g) for gi, g in enumerate(groups)]:
                f.result()
        if err:
            raise CheckError(err[0])
        return traces, hits


# ------------------------------------------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, args=(), timeout=600, heap="2g", cwd=None):
    d = tempfile.mkdtemp(prefix="tlc.", dir=work())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPECS + os.pathsep + os.path.join(SPECS, "mc"), "-cp", JARS, "tlc2.TLC",
           "-metadir", d, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    p = subprocess.Popen(cmd, cwd=cwd or SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    _procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return -1, out
    finally:
        _procs.discard(p)
        shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


def tlc_states(out):
    import re
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def depth_of(out):
    """the last value of l in the behaviour TLC prints with an error"""
    import re
    m = re.findall(r"/\\ l = (\d+)", out)
    return int(m[-1]) if m else 1


def validate(module, cfg, traces, prop, extra=None, jvms=NCPU, timeout=None):
    """traces: list of JSON-able trace records.  Returns {index: position} of rejected ones, plus state counts."""
    n = len(traces)
    if timeout is None:
        timeout = 400 if TIER != "thorough" else 3600
    if n == 0:
        return {}, 0, 0
    # balance by length
    order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))
    k = min(jvms, max(1, n // 20))
    chunks = [order[i::k] for i in range(k)]
    rej = {}
    tot = [0, 0]
    lock = threading.Lock()
    errs = []
    late = []

    def one(ci, idxs):
        f = os.path.join(work(), "tr.%s.%s.%d.%d.json" % (module, prop, ci, id(idxs) & 0xffffff))
        json.dump([traces[i] for i in idxs], open(f, "w"))
        env = {"TRACE": f, "PROP": prop}
        env.update(extra or {})
        rc, out = tlc(module, cfg, env=env, args=["-workers", "1"], timeout=timeout)
        if rc == -1:
            with lock:
                late.append(ci)
            log("TLC did not finish %d traces of %s in %d s" % (len(idxs), module, timeout))
            return
        if not DEBUG:
            os.unlink(f)
        if "CHECKED %d" % len(idxs) not in out or "Model checking completed. No error has been found." not in out:
            # an event so foreign that the specification cannot even be evaluated on it is no behaviour of it either:
            # find the traces concerned
            if "Attempted to" not in out and "was not in the domain" not in out and "evaluating" not in out and "non-enumerable" not in out:
                with lock:
                    errs.append("TLC failed on %s (%s):\n%s" % (module, f, out[-4000:]))
            elif len(idxs) == 1:
                log("TLC cannot evaluate trace %d: %s" % (idxs[0], out[out.find("Error:"):][:300].replace("\n", " ")))
                with lock:
                    rej[idxs[0]] = max(1, min(len(traces[idxs[0]]["ev"]), depth_of(out)))
            else:
                h = len(idxs) // 2
                one(ci, idxs[:h])
                one(ci, idxs[h:])
            return
        import re
        with lock:
            for m in re.finditer(r'REJECTED (\d+) AT (\d+)', out):
                rej[idxs[int(m.group(1)) - 1]] = int(m.group(2))
            g, d = tlc_states(out)
            tot[0] += g
            tot[1] += d

    with ThreadPoolExecutor(max_workers=k) as ex:
        list(ex.map(lambda a: one(*a), enumerate(chunks)))
    if errs:
        raise CheckError(errs[0])
    if late and not rej:
        raise CheckError("TLC did not finish in time")
    return rej, tot[0], tot[1]


def model_check(module, cfg, env=None, workers=NCPU, timeout=300, heap="4g"):
    """Exhaustive check of a small configuration of the design; must pass."""
    rc, out = tlc(module, cfg, env=env, args=["-workers", str(workers)], timeout=timeout, heap=heap)
    g, d = tlc_states(out)
    if rc == -1 or " is violated" not in out and "Model checking completed" not in out and "Error: " not in out:
        log("model checking of %s/%s did not finish" % (module, cfg))   # a matter of the machine's load
        return g, d
    if "Model checking completed. No error has been found." not in out:
        raise CheckError("model checking of %s/%s failed: %s" % (module, cfg, out[-3000:]))
    return g, d


def simulate(module, cfg, num, depth, env=None, seed=None, timeout=120, workers=4):
    """Behaviours generated by TLC in simulation mode; the specification prints each as JSON."""
    rc, out = tlc(module, cfg, env=env, args=["-workers", str(workers), "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)],
                  timeout=timeout)
    res = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            try:
                res.append(json.loads(json.loads(line)[5:]))
            except ValueError:
                pass
    return res, out


# ------------------------------------------------------------------------------------------------- known findings

def known_findings():
    l = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                l.append(line)
    return l
