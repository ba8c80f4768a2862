#!/usr/bin/env python3
"""Tests the machinery itself:
   1. every deliberate defect of a design model is found by TLC, and the model without defect passes;
   2. the goals of the closed behaviour specifications are reachable (they are not vacuous);
   3. recorded traces of the real code are accepted, and most of their corruptions rejected, with all guards on.
selftest.py [design|goals|traces]..."""
import copy, json, os, random, re, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import vf, check, plans

DESIGN = {"Mpsc": ["busyfirst", "noreceiving", "nobusy", "noresignal", "signalfirst", "closedlate"],
          "Stream": ["delete", "own", "late", "twostep"],
          "Registry": ["noreserve", "noclean", "recount", "nocurrent", "nowait"],
          "Lock": ["twostep", "noexpiry", "blind"]}
CFG = {"Stream": "StreamSmall.cfg", "Registry": "Registry.cfg"}
GOALS = {"FutureMC": ("FutureMC.cfg", ["NoChain", "NoLoser"]), "FifoMC": ("FifoMC.cfg", ["NoLate"]), "MutexMC": ("MutexMC.cfg", ["NoSecond", "NoRel"]),
         "ActorMC": ("ActorMC.cfg", ["NoDrain", "NoTimeout", "NoCycle"]), "ActorMC ": ("ActorMCre.cfg", ["NoFuture"]), "ActorMC  ": ("ActorMCtm.cfg", ["NoFire"])}
bad = 0


def tlc(d, module, cfgtext):
    f = os.path.join(vf.work(), "st.cfg")
    open(f, "w").write(cfgtext)
    return vf.tlc("%s/%s" % (d, module), f, args=["-workers", "6"], timeout=900, heap="6g")[1]


def design():
    global bad
    for m, vs in DESIGN.items():
        for v in ["none"] + vs:
            t = open(os.path.join(V, "specs/design", CFG.get(m, m + ".cfg"))).read().replace('Variant = "none"', 'Variant = "%s"' % v)
            out = tlc("design", m, t)
            ok = ("No error has been found" in out) if v == "none" else ("is violated" in out)
            bad += not ok
            print("%-9s %-12s %s" % (m, v, "as expected" if ok else "WRONG: " + out[-600:]), flush=True)


def goals():
    global bad
    for m, (cfg, gs) in GOALS.items():
        for g in gs:
            t = open(os.path.join(V, "specs/mc", cfg)).read()
            t = re.sub(r"INVARIANTS .*", "INVARIANT " + g, t)
            t = re.sub(r"PROPERTIES .*\n", "", t)
            out = tlc("mc", m.strip(), t)
            ok = "Invariant %s is violated" % g in out
            bad += not ok
            print("%-9s %-12s %s" % (m, g, "reached" if ok else "NOT REACHED " + out[-600:]), flush=True)


def corrupt(ev, rng):
    """one change to a trace"""
    ev = copy.deepcopy(ev)
    k = rng.choice(["drop", "dup", "swap", "flip", "late", "value"])
    idx = [i for i, e in enumerate(ev) if e["e"] not in ("end", "quiet", "cfg")]
    i = rng.choice(idx)
    if k == "drop":
        del ev[i]
    elif k == "dup":
        ev.insert(i + 1, copy.deepcopy(ev[i]))
    elif k == "swap":
        j = rng.choice(idx)
        ev[i], ev[j] = ev[j], ev[i]
        ev[i]["t"], ev[j]["t"] = ev[j]["t"], ev[i]["t"]
    elif k == "flip":
        bs = [(i, q) for i in idx for q in ev[i] if isinstance(ev[i][q], bool)]
        if not bs:
            return None
        i, q = rng.choice(bs)
        ev[i][q] = not ev[i][q]
    elif k == "value":
        vs = [(i, q, w) for i in idx for q in ev[i] if q not in ("e", "t") and isinstance(ev[i][q], (str, int)) and not isinstance(ev[i][q], bool)
              for w in [[f[q] for f in ev if q in f and type(f[q]) is type(ev[i][q]) and f[q] != ev[i][q]]] if w]
        if not vs:
            return None
        i, q, w = rng.choice(vs)
        ev[i][q] = rng.choice(w)
    else:
        e = ev.pop(i)
        e["t"] = ev[-1]["t"]
        ev.insert(len(ev) - 2, e)
    return k, ev


def traces():
    global bad
    d = vf.Driver()
    d.build()
    rng = random.Random(vf.SEED)
    seen = set()
    for prop, plan in plans.PLANS.items():
        for fam, gen, prof, n, var in plan.rows:
            if (fam, prof) in seen or prof == "pile":
                continue
            seen.add((fam, prof))
            f = plans.FAMILIES[fam]
            scns = gen(prof, vf.SEED, 40)[:40]
            trs, _ = d.run(fam, scns, limit=f.limit)
            recs = [check.default_record(s, t) for s, t in zip(scns, trs)]
            r0, _, _ = vf.validate(f.module, f.module + ".cfg", recs, "ALL")
            cs = []
            for r in recs:
                for _ in range(4):
                    c = corrupt(r["ev"], rng)
                    if c and c[1] != r["ev"]:
                        cs.append((c[0], {"slack": r["slack"], "ev": c[1]}))
            r1, _, _ = vf.validate(f.module, f.module + ".cfg", [c[1] for c in cs], "ALL")
            by = {}
            if r1 is not None:
                for i, c in enumerate(cs):
                    a, b = by.get(c[0], (0, 0))
                    by[c[0]] = (a + (i in r1), b + 1)
            bad += len(r0) > 0
            print("%s %-9s %-8s originals rejected: %d of %d; corruptions rejected: %s" % (prop, fam, prof, len(r0), len(recs), " ".join("%s %d/%d" % (k, a, b) for k, (a, b) in sorted(by.items()))), flush=True)


if __name__ == "__main__":
    todo = sys.argv[1:] or ["design", "goals", "traces"]
    for t in todo:
        {"design": design, "goals": goals, "traces": traces}[t]()
    print("selftest:", "FAILED" if bad else "passed")
    sys.exit(1 if bad else 0)
