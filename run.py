#!/usr/bin/env python3
"""run.py <property> [--thorough]   decide one property on /repo's working tree
   run.py --replay FILE         run the scenarios of a replay file again and decide them
   run.py --setup               build everything once"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
import vf, check, plans


def main():
    t0 = time.time()
    a = [x for x in sys.argv[1:] if x != "--thorough"]
    if a and a[0] == "--setup":
        d = vf.Driver()
        d.build()
        vf.say("driver built (instrumented=%s)" % d.instrumented)
        return 0
    if a and a[0] == "--replay":
        rep = json.load(open(a[1]))
        d = vf.Driver()
        d.build()
        res = check.Result()
        for v in rep["violations"]:
            fam = plans.FAMILIES[v["family"]]
            check.execute(d, fam.part([v["scenario"]], variants=0), rep["property"], res, 0)
        for v in res.violations:
            for e in v["trace"]:
                vf.say("   ", json.dumps({k: x for k, x in e.items() if k != "n"})[:400])
        vf.say("%d of %d rejected" % (len(res.violations), res.traces))
        return 1 if res.violations else 0
    prop = a[0]
    plan = plans.PLANS[prop]
    res = check.Result()
    models = plans.start_models(prop)
    d = vf.Driver()
    d.build()
    for part in plan.parts(vf.TIER, vf.SEED):
        check.execute(d, part, prop, res, vf.SEED)
        if res.violations:
            break
    res.mc = models()
    for m in res.mc:
        res.states += m["distinct"]
        res.trans += m["generated"]
    return check.finish(prop, res, plan.level, t0, plan.assumptions, plan.extra(res))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vf.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        sys.exit(2)
