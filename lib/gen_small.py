"""Environments for the component families: phases of concurrent threads."""
import random
import gen_actor


def perturb_add(scn, hits, rng):
    """the perturbation adds to the tolerance that the scenario has anyway"""
    s = gen_actor.perturb(scn, hits, rng)
    s["slack"] += scn["slack"]
    return s


def perturb_short(scn, hits, rng):
    """short delays, for families whose tolerance has to stay small"""
    s = gen_actor.perturb(scn, hits, rng, budget=15)
    if "focus" in s["sched"]:
        return s
    for h in s["sched"].get("holds", []):
        h["us"] = min(h["us"], 12000)
    s["slack"] = 10 + sum(h["us"] for h in s["sched"].get("holds", [])) // 1000 if "holds" in s["sched"] else 25
    return s


def scn(ident, phases, cfg=None, slack=0):
    return {"id": ident, "cfg": cfg or {}, "phases": phases, "slack": slack}


def phase(*threads, adv=0):
    return {"threads": [t for t in threads if t], "adv": adv}


def many(name):
    def deco(f):
        def gen(profile, seed, n):
            return [f(random.Random("%s/%s/%s/%d" % (name, profile, seed, i)), profile, "%s-%s-%d" % (name, profile, i)) for i in range(n)]
        return gen
    return deco


@many("future")
def future(r, prof, ident):
    roots = ["f%d" % (i + 1) for i in range(r.choice([1, 1, 2]))]
    known, cnt = list(roots), {"c": 0, "x": 0, "v": 0}
    phases = []

    def op(local):
        k = r.choices(["then", "complete", "isc"], [5, 3, 2])[0]
        f = r.choice(local)
        if k == "then":
            cnt["c"] += 1
            c = "c%d" % cnt["c"]
            local.append(c)
            new.append(c)
            return {"op": "then", "a": f, "b": c, "n": r.choice([0, 0, 0, 5])}
        cnt["x"] += 1
        if k == "complete":
            cnt["v"] += 1
            return {"op": "complete", "x": "x%d" % cnt["x"], "a": f, "v": "v%d" % cnt["v"] + r.choice(["", "", "!"])}
        return {"op": "isc", "x": "x%d" % cnt["x"], "a": f}

    crowd = r.random() < 0.15
    if crowd:
        # many continuations of one future, from several clients
        k = r.choice([9, 12, 20, 40])
        cs = ["k%d" % i for i in range(k)]
        th = r.choice([1, 2, 4])
        phases.append(phase(*[[{"op": "then", "a": roots[0], "b": c} for c in cs[t::th]] for t in range(th)]))
    elif r.random() < 0.3:
        # continuations are attached while the future completes
        ths = [[{"op": "complete", "x": "q", "a": roots[0], "v": "q"}]]
        for t in range(r.choice([1, 2, 3])):
            ths.append([{"op": "then", "a": roots[0], "b": "g%d.%d" % (t, i)} for i in range(r.choice([1, 2, 3]))])
        r.shuffle(ths)
        phases.append(phase(*ths, adv=r.choice([0, 7])))
    for _ in range(r.choice([1, 2, 2, 3])):
        new = []
        ths = []
        for _ in range(r.choice([1, 2, 2, 3])):
            local = list(known)
            ths.append([op(local) for _ in range(r.choice([1, 2, 3]))])
        known += new
        phases.append(phase(*ths, adv=r.choice([0, 0, 7])))
    phases.append(phase([{"op": "complete", "x": "z%d" % i, "a": f, "v": "w%d%s" % (i, r.choice(["", "!"]))} for i, f in enumerate(roots)], adv=40))
    # continuations attached after everything is over
    phases.append(phase([{"op": "then", "a": f, "b": "late%d" % i} for i, f in enumerate(known[:3])]
                        + [{"op": "then", "a": "late0", "b": "later"}, {"op": "isc", "x": "y", "a": "later"}], adv=20))
    phases.append(phase([{"op": "isc", "x": "yy", "a": "later"}]))
    return dict(scn(ident, phases, {"roots": roots}), focus=r.random() < 0.3)


@many("chain")
def chain(r, prof, ident):
    out = lambda: r.choices(["ok", "err", "panic", "slow", "mark", "markerr"], [14, 2, 2, 4, 3, 3])[0]
    chains = {"k%d" % i: {"before": [out() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))], "h": out(), "after": [out() for _ in range(r.choice([0, 1, 1, 2, 3]))]}
              for i in range(r.choice([2, 3, 4]))}
    evs = r.choice([["e1", "e2", "e3"], ["e1", "E1", "e"], ["x", "x.y", "x."], ["\u00e9", "e\u0301", "e"], ["a b", "a  b", "a b "], ["ev", "ev*", "e?"],
                    ["", "e1", " "], ["0", "00", "0.0"], ["k" * 300, "k" * 301, "k"]])
    n = [0]

    def op(reg):
        n[0] += 1
        if r.random() < reg:
            return {"op": "on", "x": "o%d" % n[0], "k": r.choice(list(chains)), "v": r.choice(evs)}
        return {"op": r.choice(["call", "send"]), "x": "m%d" % n[0], "v": r.choice(evs)}

    phases = [phase(*[[op(0.8) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([1, 1, 2, 3]))])]
    for _ in range(r.choice([1, 2, 3])):
        phases.append(phase(*[[op(0.2) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 2, 3]))], adv=r.choice([0, 200])))
    phases.append(phase(adv=3000))
    return scn(ident, phases, {"chains": chains})


@many("fifo")
def fifo(r, prof, ident):
    kind = prof
    n = [0]

    def puts(k):
        l = []
        for _ in range(k):
            n[0] += 1
            l.append({"op": "put", "x": "i%d" % n[0]})
            if r.random() < 0.15:
                l.append({"op": "sleep", "n": r.choice([1, 3])})
        return l

    phases = []
    if int(ident.rsplit("-", 1)[1]) % 100 == 7:
        # a long backlog
        phases.append(phase(*[[{"op": "put", "x": "b%d.%d" % (t, i)} for i in range(r.choice([300, 700, 1300]))] for t in range(r.choice([1, 2]))]))
    for _ in range(r.choice([1, 2, 3])):
        phases.append(phase(*[puts(r.choice([1, 2, 4])) for _ in range(r.choice([1, 2, 3]))]))
    consumer = [{"op": "get", "n": 10000, "m": 0 if len(phases[0]["threads"][0]) > 100 else r.choice([0, 0, 2])}]
    at = r.randrange(len(phases))
    phases[at]["threads"].append(consumer)
    if r.random() < 0.5:
        phases.append(phase(puts(2), adv=5))
    phases.append(phase(adv=200))
    return scn(ident, phases, {"kind": kind})


@many("version")
def version(r, prof, ident):
    n = [0]
    if r.random() < 0.5:
        pool = sorted(r.sample(range(1, 40), r.choice([2, 4, 6])))
    else:
        # far apart, negative, zero
        pool = sorted(set(r.choice([0, 0, 1, -1, -2, -7, 255, 256, 257, 999, 1000, 1001, 4096, 12000, 32767, 32768, 40000, -300, -5000, -20000]) for _ in range(r.choice([2, 3, 5]))))

    if r.random() < 0.4:
        pool = sorted({0, r.choice([-1, -3, -40]), r.choice([-2, 1, 5])})

    def near():
        return r.choice(pool) + r.choice([-1, 0, 0, 1])

    def op(reg):
        n[0] += 1
        x = "x%d" % n[0]
        if r.random() < reg:
            return {"op": "reg", "x": x, "n": r.choice(pool)}
        return {"op": r.choice(["next", "next", "get"]), "x": x, "n": r.choice([0, near(), near()])}

    phases = []
    for _ in range(r.choice([1, 2])):
        phases.append(phase(*[[op(0.6) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 1, 2, 3]))]))
    n[0] += 1
    phases.append(phase([{"op": "upgrade", "x": "u", "n": r.choice([0, near()])}] + [{"op": "get", "x": "g%d" % v, "n": v} for v in pool]))
    return scn(ident, phases)


@many("token")
def token(r, prof, ident):
    ids = {"i1": "111", "i2": "user-%d" % r.randrange(1000), "i3": r.choice(["<a&b>", 'quo"te\\', "\u4e2d\u6587", "a.b.c", " pad ", "tab\there", "\u2028x", "0", "null"]),
           "i4": r.choice(["x" * 300, "y" * 5000, "z" * 64, "Z" * 64]), "i5": r.choice(["112", "11", "1111", "User-1"])}
    n = [0]
    names = []
    phases = []

    def forge(have):
        n[0] += 1
        x = "t%d" % n[0]
        how = r.choice(["pay", "pay", "bits", "sig", "swap", "swap", "alg", "cut", "cut", "none", "none", "key", "key", "junk", "copy"])
        o = {"op": "forge", "x": x, "k": how, "a": r.choice(have), "b": r.choice(have), "v": r.choice(sorted(ids)), "n": r.randrange(400)}
        if how == "bits":
            o["v"] = "i1"
        return o

    for k in range(r.choice([2, 3])):
        # forgeries are only made from tokens of earlier phases that Create made
        threads = []
        new = []
        for _ in range(r.choice([1, 1, 2, 3])):
            th = []
            mine = []
            for _ in range(r.choice([2, 4, 8])):
                c = r.random()
                if c < 0.3 or not names:
                    n[0] += 1
                    x = "t%d" % n[0]
                    th.append({"op": "create", "x": x, "v": r.choice(sorted(ids) + [""] * (r.random() < 0.3))})
                    if th[-1]["v"]:
                        mine.append(x)
                        new.append(x)
                elif c < 0.6:
                    o = forge(names)
                    if r.random() < 0.5:     # the genuine one is seen first
                        th.append({"op": "parse", "a": o["a"]})
                    th += [o, {"op": "parse", "a": o["x"]}]
                    if r.random() < 0.3:
                        th.append({"op": "parse", "a": o["x"]})
                else:
                    th.append({"op": "parse", "a": r.choice(names + mine)})
            threads.append(th)
        names += new
        phases.append(phase(*threads, adv=r.choice([0, 0, 1000, 3600000, 86400000, 40 * 86400000])))
    phases.append(phase([{"op": "parse", "a": x} for x in names]))
    return scn(ident, phases, {"ids": ids})


@many("builder")
def builder(r, prof, ident):
    keys, vals = ["k1", "k2", "k3"], ["", "a", "b", "c"]
    tys = ["T", "U"]
    tmpl = {t: {k: r.choice(vals) for k in r.sample(keys, r.choice([0, 1, 2]))} for t in tys}
    nb = [0]
    ids = [0]
    phases = []
    bs = []

    def ops(b, k):
        l = []
        for _ in range(k):
            o = r.choices(["opt", "get", "read", "id", "type", "reg", "tmpl"], [6, 2, 3, 1, 0.3, 1.5, 1.5])[0]
            if o == "opt":
                l.append({"op": "opt", "a": b, "k": r.choice(keys), "v": r.choice(vals)})
            elif o == "get":
                l.append({"op": "get", "a": b, "k": r.choice(keys)})
            elif o == "id":
                ids[0] += 1
                l.append({"op": "id", "a": b, "v": "a%d" % ids[0]})
            elif o == "type":
                l.append({"op": "type", "a": b, "v": r.choice(tys)})
            elif o == "reg":
                ids[0] += 1
                l += [{"op": "id", "a": b, "v": "a%d" % ids[0]}, {"op": "reg", "a": b}]
            elif o == "tmpl":
                l.append({"op": "tmpl", "v": r.choice(tys)})
            else:
                l.append({"op": "read", "a": b})
        return l

    for _ in range(r.choice([1, 2, 3])):
        ths = []
        for b in r.sample(bs, min(len(bs), 2)):
            ths.append(ops(b, r.choice([1, 3])))
        for _ in range(r.choice([1, 2, 3])):
            nb[0] += 1
            b = "b%d" % nb[0]
            ths.append([{"op": "new", "a": b, "v": r.choice(tys)}] + ops(b, r.choice([1, 3, 5])))
            bs.append(b)
        phases.append(phase(*ths))
    phases.append(phase([o for b in bs for o in [{"op": "read", "a": b}]] + [{"op": "tmpl", "v": t} for t in tys]))
    return scn(ident, phases, {"tmpl": tmpl})


@many("tick")
def tick(r, prof, ident):
    ks = ["k%d" % i for i in range(r.choice([1, 1, 2, 3]))]
    hooks = r.choice(["", "b", "e", "be", "be"])
    slow = r.random() < 0.5
    outs = lambda: [r.choices(["ok", "err", "panic"] + (["slow", "slower"] if slow else []) + (["end", "bpanic"] if "b" in hooks else []) + (["epanic"] if "e" in hooks else []),
                              [6, 1, 1] + ([2, 1.5] if slow else []) + ([1, 0.5] if "b" in hooks else []) + ([0.5] if "e" in hooks else []))[0] for _ in range(r.choice([1, 2, 4]))]
    tasks = {k: {"run": r.random() < 0.9, "due": r.choice([0, 0, 3, 50]), "ival": r.choice([20, 25, 40, 100]), "outs": ["ok"] + outs()} for k in ks}
    n = [0]

    def op(ph=0):
        n[0] += 1
        w = [4, 3, 1, 1, 1]
        o = r.choices(["start", "stop", "stopn", "startall", "stopall"], w)[0]
        return {"op": o, "x": "o%d" % n[0], "a": r.choice(ks)}

    phases = [phase([{"op": "startall", "x": "s0"}], adv=r.choice([0, 0, 60, 101]))] if r.random() < 0.6 else []
    for i in range(r.choice([2, 3, 4, 5])):
        phases.append(phase(*[[op(i) for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 1, 2]))],
                            adv=r.choice([90, 150, 203, 330])))
        if r.random() < 0.2:
            n[0] += 1
            k = r.choice(ks)
            phases += [phase([{"op": "stop", "x": "q%d" % n[0], "a": k}], adv=220), phase([{"op": "rm", "a": k}]),
                       phase([{"op": "stopn", "x": "r%d" % n[0], "a": k}, {"op": "start", "x": "t%d" % n[0], "a": k}], adv=200)]
    # stop and start again at once is only well defined while no run is in progress
    phases.append(phase([{"op": "stopall", "x": "z"}], adv=300))
    return scn(ident, phases, {"tasks": tasks, "hooks": hooks})


@many("report")
def report(r, prof, ident):
    n = [0]
    prob = r.choice([1, 1, 1, 0, 0.5])
    slow = r.choice([0, 0, 0, 2, 30])
    big = r.random() < 0.3

    def reps(k):
        l = []
        for _ in range(k):
            n[0] += 1
            l.append({"op": "rep", "x": "s%d" % n[0], "n": r.randrange(1, 2048)})
            if r.random() < 0.08:
                l.append({"op": "sleep", "n": r.choice([1, 300, 990])})
        return l

    phases = []
    for i in range(r.choice([1, 2, 3])):
        if big and i == 0:
            slow = slow or 20
            ths = [reps(r.choice([40, 70, 110])) for _ in range(r.choice([1, 2]))]
        else:
            ths = [reps(r.choice([1, 2, 5])) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.15:
            n[0] += 1
            ths.append([{"op": "sleep", "n": r.choice([0, 0, 1, 300])}, {"op": "close", "x": "c%d" % n[0]}])
        phases.append(phase(*ths, adv=r.choice([0, 100, 1100, 2500])))
    n[0] += 1
    phases.append(phase([{"op": "close", "x": "c%d" % n[0]}], *([[{"op": "close", "x": "cc%d" % n[0]}]] if r.random() < 0.4 else [])))
    if r.random() < 0.4:
        phases.append(phase([{"op": "close", "x": "ccc"}]))
    phases.append(phase(adv=20000))
    return scn(ident, phases, {"prob": prob, "fail": r.random() < 0.3, "slow": slow, "slowfl": r.choice([0, 0, 0, 40])})


@many("mutex")
def mutex(r, prof, ident):
    ks = ["k1", "k2"][:r.choice([1, 1, 2])]
    n = [0]
    locks = []

    def op(loc):
        n[0] += 1
        o = r.choices(["lock", "unlock", "bogus", "sleep"], [5, 4 if locks else 0, 1, 1])[0]
        if o == "lock":
            x = "l%d" % n[0]
            k = r.choice(ks) if r.random() < 0.97 else ""
            loc.append((x, k))
            return {"op": "lock", "x": x, "k": k, "f": r.random() < 0.04}
        if o == "unlock":
            # (sometimes the value of another token)
            x, k = r.choice(locks + loc)
            return {"op": "unlock", "x": "u%d" % n[0], "a": x, "k": k if r.random() < 0.9 else r.choice(ks)}
        if o == "bogus":
            return {"op": "unlock", "x": "u%d" % n[0], "v": r.choice(["empty", "other"]), "k": r.choice(ks)} if not locks or r.random() < 0.4 else \
                dict(zip(("a", "k"), r.choice(locks)), op="unlock", x="u%d" % n[0], v=r.choice(["head", "tail", "part", "more", "upper", "star", "space"]))
        return {"op": "sleep", "n": r.choice([1, 100, 690, 1400])}

    phases = []
    for _ in range(r.choice([2, 3, 4, 5])):
        new = []
        ths = [[op(new) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 2, 3, 4]))]
        locks += new
        phases.append(phase(*ths, adv=r.choice([0, 500, 750, 1500, 3000, 5000, 10200])))
        if r.random() < 0.15:
            phases += [phase([{"op": "fail", "f": True}], adv=r.choice([0, 100])), phase(*[[op(locks)] for _ in range(r.choice([1, 2]))], adv=r.choice([0, 800, 3500])),
                       phase([{"op": "fail"}])]
    if r.random() < 0.2:
        # an unlock at the very end of the lock's life, while others are after it
        k = ks[0]
        phases += [phase(adv=14000), phase([{"op": "lock", "x": "late", "k": k}], adv=9950),
                   phase([{"op": "sleep", "n": r.choice([5, 20, 35, 45])}, {"op": "unlock", "x": "ulate", "a": "late", "k": k}],
                         *[[{"op": "sleep", "n": r.choice([51, 52, 55, 61])}, {"op": "lock", "x": "after%d" % j, "k": k}] for j in range(r.choice([1, 2]))], adv=300),
                   phase(*[[{"op": "lock", "x": "again%d" % j, "k": k}] for j in range(2)], adv=3500)]
    phases.append(phase(adv=14000))
    phases.append(phase(*[[{"op": "lock", "x": "fin" + k, "k": k}] for k in ks], adv=3500))
    return scn(ident, phases, slack=110)


@many("fields")
def fields(r, prof, ident):
    keys = ["a", "b", "c", "OrgId"]
    tys = ["string", "bool", "int", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "float64", "list", "map"]
    ints = ["0", "1", "5", "127", "255", "32767", "65535", "65536", "2147483647", "4294967295", "9007199254740991"]
    rng = {"int8": 7, "uint8": 8, "int16": 15, "uint16": 16, "int32": 31, "uint32": 32}

    def val(bad=0.05):
        if r.random() < bad:
            return ["bad", r.choice(["nan", "chan", "func"])]
        k = r.choice(["string", "string", "bool", "nil", "list", "map", "float64", "float32"] + ["int", "int64", "uint64", "uint", "int32", "uint32", "int16", "uint16", "int8", "uint8"])
        if k == "string":
            return [k, r.choice(["", "x", "tok", "<&>", "\u00e9\u4e16", "5", "null", "a\nb", "{"])]
        if k == "bool":
            return [k, r.choice(["true", "false"])]
        if k == "nil":
            return [k, ""]
        if k == "list":
            return [k, r.choice(["[]", "[1,2]", "[\"a\",[true]]"])]
        if k == "map":
            return [k, r.choice(["{}", "{\"a\":1}", "{\"x\":{\"y\":[1]}}"])]
        if k.startswith("float"):
            return [k, r.choice(["0", "1.5", "-2.25", "1.1", "100"])]
        c = [i for i in ints if int(i) < 2 ** rng.get(k, 63)]
        v = r.choice(c)
        return [k, ("-" + v) if k.startswith("int") and v != "0" and r.random() < 0.3 else v]

    def attrs(k, bad=0.05):
        l = []
        for _ in range(k):
            l += [r.choice(keys)] + val(bad)
        return l

    n = [0]

    def ops():
        n[0] += 1
        s = r.choice(["req", "res"])
        o = r.choices(["fields", "map", "header", "body", "raw", "obj", "rebuild"], [8, 2, 1.5, 1.5, 0.4, 0.8, 1])[0]
        if o == "fields":
            return {"op": o, "a": s, "l": attrs(r.choice([0, 1, 1, 2, 3]))}
        if o == "map":
            return {"op": o, "a": s, "l": attrs(r.choice([0, 1, 2])), "f": r.random() < 0.15}
        if o == "header":
            return {"op": o, "a": s, "x": str(n[0]), "l": attrs(r.choice([0, 1, 2]), 0)}
        if o == "body":
            k = r.choice(["", "", "nil", "empty"])
            return {"op": o, "a": s, "b": "" if k else "body%d" % n[0], "v": k}
        if o == "raw":
            return {"op": o, "a": s, "b": r.choice(["{bad", "[1]", "x", "{\"a\":}"])}
        if o == "obj":
            return {"op": o, "a": s, "b": "n%d" % n[0], "n": n[0], "l": ["p", "q"], "f": r.random() < 0.15}
        return {"op": o, "a": s}

    seq = []
    for _ in range(r.choice([3, 6, 10])):
        seq.append(ops())
        for _ in range(r.choice([0, 1, 2])):
            seq.append({"op": "get", "a": r.choice(["req", "res"]), "k": r.choice(keys), "v": r.choice(tys)})
    for s in ["req", "res"]:
        seq += [{"op": "gmap", "a": s}, {"op": "rbody", "a": s}, {"op": "robj", "a": s}] + [{"op": "get", "a": s, "k": k, "v": t} for k in keys for t in tys]
    return scn(ident, [phase(seq)])


@many("rpc")
def rpc(r, prof, ident):
    """limited and unlimited calls of one client, ending in every way; at the end the limit must be fully usable"""
    mx = r.choice([1, 1, 2, 2, 3])
    n = [0]
    open_, phases = [], []

    def call(final=False):
        n[0] += 1
        x = "x%d" % n[0]
        k = "ok" if final else r.choices(["ok", "err", "noconn", "badopt"], [6, 3, 2, 2])[0]
        f = False if final else r.random() < 0.15
        if f and k in ("noconn", "badopt"):
            k = "ok"
        o = {"op": "call", "x": x, "k": k, "f": f, "a": r.choice(["1", "1", "2"]) if f else "1", "n": r.randrange(2)}
        if not final and r.random() < 0.25:
            o["m"] = r.choice([10, 30, 80])
        open_.append(x)
        return o

    troubled = False
    for i in range(r.choice([2, 3, 4, 5])):
        ths = []
        for _ in range(r.choice([1, 2, 3, 5])):
            ths.append([call()])
            if r.random() < 0.25:
                ths[-1].append(call())
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.choice(open_)
            th = [{"op": "go", "l": [x]}] if r.random() < 0.6 else [{"op": "cancel", "x": x}]
            if r.random() < 0.4:
                th.insert(0, {"op": "sleep", "n": r.choice([1, 5])})
            ths.append(th)
        phases.append(phase(*ths, adv=r.choice([0, 0, 20, 100])))
        if r.random() < 0.5:
            phases.append(phase([{"op": "go", "l": [x for x in open_ if r.random() < 0.6]}]))
        if r.random() < 0.3:
            phases.append(phase(*[[{"op": "cancel", "x": x}] for x in open_[-4:] if r.random() < 0.6]))
        if not troubled and r.random() < 0.12:
            troubled = True
            phases.append(phase([{"op": "down", "a": "1"}], [call()], adv=r.choice([0, 500])))
            phases.append(phase([call()], adv=1500))
            phases.append(phase([{"op": "up", "a": "1"}]))
    # everything ends; then exactly mx calls must get through and the next one must wait for one of them
    phases.append(phase([{"op": "go", "l": list(open_)}], adv=150))
    if troubled:
        phases.append(phase(adv=140000))
    phases.append(phase(*[[call(True)] for _ in range(mx + 1)]))
    phases.append(phase([{"op": "go", "l": open_[-mx - 1:]}], adv=5))
    return scn(ident, phases, {"max": mx})
