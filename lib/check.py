"""The engine of every check: scenarios -> real code -> recorded traces -> TLC -> verdict and evidence."""
import collections, json, os, random, time
import vf


class Part:
    """One family's share of a check.

    family    driver family
    module    trace specification
    scns      list of scenarios
    perturb   function (scenario, hits, rng) -> perturbed scenario, or None
    variants  how many perturbed runs per scenario
    record    function (scenario, events) -> trace record for TLC
    """

    def __init__(self, family, module, scns, perturb=None, variants=1, record=None, cfg=None, shards=vf.NCPU, limit=20, invariants=()):
        self.family, self.module, self.scns, self.perturb, self.variants = family, module, scns, perturb, variants
        self.record = record or default_record
        self.cfg = cfg or module + ".cfg"
        self.shards = shards
        self.limit = limit


def strip(e):
    return {k: v for k, v in e.items() if k not in ("why", "n")}


def default_record(scn, events):
    return {"slack": scn.get("slack", 0), "ev": [strip(e) for e in events]}


class Result:
    def __init__(self):
        self.states = self.trans = self.traces = self.events = self.rejected = 0
        self.kinds = collections.Counter()
        self.samples = []
        self.violations = []   # dicts
        self.known = []
        self.mc = []
        self.shapes = set()


def execute(drv, part, prop, res, seed):
    rng = random.Random("perturb/%s" % seed)
    scns = list(part.scns)
    traces, hits = drv.run(part.family, scns, shards=part.shards, limit=part.limit)
    vf.log("%s: %d scenarios run" % (part.family, len(scns)))
    if part.perturb and part.variants and drv.instrumented:
        extra = []
        base = [(s, h) for s, t, h in zip(part.scns, traces, hits) if t is not None]
        nv = part.variants
        for k in range(int(nv) + (1 if nv % 1 else 0)):
            for s, h in base:
                if k >= int(nv) and rng.random() >= nv % 1:
                    continue
                extra.append(part.perturb(s, h, rng))
        t2, _ = drv.run(part.family, extra, shards=part.shards, limit=part.limit)
        scns += extra
        traces += t2
        vf.log("%s: %d perturbed scenarios run" % (part.family, len(extra)))
    # (after several crashes the rest is not run)
    both = [(s, t) for s, t in zip(scns, traces) if t is not None]
    scns, traces = [b[0] for b in both], [b[1] for b in both]
    recs = [part.record(s, t) for s, t in zip(scns, traces)]
    rej, g, d = vf.validate(part.module, part.cfg, recs, prop)
    vf.log("%s: %d traces decided, %d rejected" % (part.family, len(recs), len(rej)))
    res.traces += len(recs)
    res.trans += g
    res.states += d
    for r in recs:
        for e in r["ev"]:
            res.kinds[e["e"]] += 1
            res.events += 1
        res.shapes.add(hash(json.dumps([[e["e"]] + [str(e.get(k)) for k in ("m", "a", "out", "ok")] for e in r["ev"]])))
    if not res.samples:
        mid = [r for r in recs if 4 <= len(r["ev"]) <= 40] or recs
        r = mid[len(mid) // 2]
        res.samples.append({"family": part.family, "trace": r["ev"][:60]})
    if rej:
        # (the shortest ones are enough)
        idx = sorted(sorted(rej, key=lambda i: len(recs[i]["ev"]))[:40])
        # While working on a specification (VERIF_STRICT) every rejection must be due to the guards of this property, or to a
        # crash or lack of progress.  Otherwise what fits the specification nowhere is a violation like any other.
        bad = [recs[i] for i in idx]
        r2, _, _ = vf.validate(part.module, part.cfg, bad, "NONE", jvms=4)
        for k, i in enumerate(idx):
            if k in r2 and os.environ.get("VERIF_STRICT"):
                raise vf.CheckError("trace %d of %s does not fit the specification even without guards, at event %d: %s\n%s" % (
                    i, part.family, r2[k], json.dumps(recs[i]["ev"][r2[k] - 1:r2[k]])[:2000], json.dumps(scns[i])[:3000]))
            ev = traces[i][rej[i] - 1] if rej[i] <= len(traces[i]) else {}
            if k == 0:
                res.rejected += len(rej)
            res.violations.append({"family": part.family, "module": part.module, "scenario": scns[i], "at": rej[i], "event": ev, "trace": traces[i][:rej[i]]})


def signature(v):
    """what identifies a violation in the known-findings file"""
    return "%s %s" % (v["family"], v["scenario"].get("id", ""))


def known_for(prop):
    out = []
    for line in vf.known_findings():
        if line.startswith("finding: property=%s " % prop):
            out.append(line.split(" ", 2)[2])
    return out


def finish(prop, res, level, t0, assumptions, extra=None, samples=None):
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    known = known_for(prop)
    fresh = []
    for v in res.violations:
        sig = signature(v)
        k = [x for x in known if x.split(" :: ")[0].strip() == sig]
        (res.known if k else fresh).append((k[0] if k else sig, v))
    for k, v in {k: v for k, v in res.known}.items():
        vf.say("KNOWN-FINDING: property=%s %s" % (prop, k))
    cov = {
        "states": res.states, "transitions": res.trans, "traces_validated_against_impl": res.traces,
        "events": res.events, "event_kinds": dict(res.kinds), "distinct_traces": len(res.shapes),
        "models_checked": res.mc, "samples": samples or res.samples,
    }
    cov.update(extra or {})
    ev = {"property": prop, "tier": vf.TIER if vf.TIER in ("quick", "thorough") else "quick", "seed": vf.SEED, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh), "assumptions": assumptions}
    with open(os.path.join(vf.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        p = os.path.join(vf.VERIF, "evidence", prop + ".replay.json")
        json.dump({"property": prop, "violations": [v for _, v in fresh[:5]]}, open(p, "w"), indent=1)
        v = fresh[0][1]
        vf.say("property %s is violated in %d of %d executions; first: scenario %s, event %d: %s" % (
            prop, res.rejected, res.traces, v["scenario"].get("id"), v["at"], json.dumps(v["event"])[:600]))
        vf.say("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    vf.say("property %s held: %d executions decided by TLC, %d events" % (prop, res.traces, res.events))
    return 0
