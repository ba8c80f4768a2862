"""Scenarios with several nodes sharing one registry."""
import random
from gen_small import many, scn, phase

NODE_IDS = ["node", "node1", "node11", "n:1", "no de", "{x}", "n*", "Нода"]
IDS = ["a", "a1", "a11", "b:2", "b 2", "c\"q", "{d}", "ж", "e*", "f/f", "g%d", "h\\n"]


class W:
    """what the generator believes: which ids are registered where"""

    def __init__(self, r, nn, types, nids, fake=0):
        self.r = r
        self.names = ["n%d" % (i + 1) for i in range(nn + fake)]
        self.real = self.names[:nn]
        nid = r.sample(NODE_IDS, nn + fake)
        self.nodes = dict(zip(self.names, nid))
        ids = r.sample(IDS, nids)
        self.ids = {"a%d" % (i + 1): ids[i] for i in range(nids)}
        self.types = types
        self.ty = {a: r.choice([t for t in types if types[t]["w"] != -999]) for a in self.ids}
        # only one node at a time may want an id: registering the same id on two nodes is not supported
        self.home = {a: r.choice(self.real) for a in self.ids}
        self.at = {}      # id -> (node, registration), as far as known
        self.up = set(self.real)
        self.c = {"x": 0, "u": 0, "m": 0}
        self.phases = [phase(*[[{"op": "start", "a": n}] for n in self.real]), phase([{"op": "fake", "a": n} for n in self.names[nn:]])]
        self.prog = {}
        self.spare, self.spawned = [], []
        self.c["v"] = 0

    def new(self, k):
        self.c[k] += 1
        return "%s%d" % (k, self.c[k])

    def gone(self, n):
        """node n has shut down: what lived there may live elsewhere"""
        for a in self.ids:
            if self.home[a] == n and self.up and self.r.random() < 0.5:
                self.home[a] = self.r.choice(sorted(self.up))

    def view(self):
        self.phases.append(phase([{"op": "view"}]))

    def scn(self, ident, slack=0):
        rt = random.Random("traced/%s" % ident)
        return scn(ident, self.phases, {"nodes": self.nodes, "types": self.types, "prog": self.prog, "ids": self.ids,
                                        "traced": {n: True for n in self.real if rt.random() < 0.3}}, slack)

    def reg(self, a, n):
        x = self.new("x")
        return {"op": "reg", "x": x, "a": n, "b": a, "k": self.ty[a]}

    def unreg(self, a, n):
        return {"op": "unreg", "x": self.new("u"), "a": n, "b": a, "k": self.ty[a]}

    def place(self, k):
        """register k actors, undisturbed"""
        th = []
        cand = [a for a in self.ids if a not in self.at and self.home[a] in self.up]
        for a in self.r.sample(cand, min(k, len(cand))):
            n = self.home[a]
            o = self.reg(a, n)
            self.at[a] = (n, o["x"])
            th.append([o])
        self.phases.append(phase(*th))


def types(r, k, lim=0.0, uniq=0.0):
    ws = [0, 1, 5, 10, 10, 30, 100]
    t = {}
    names = r.sample(["T", "Ta", "Tab", "t:1", "total", "x y"], k)
    for n in names:
        t[n] = {"w": r.choice(ws), "lim": r.choice([1, 2, 3]) if r.random() < lim else 0, "uniq": r.random() < uniq}
    return t


def churn(w, r, multi, dup):
    """threads of registrations and removals; multi: several operations on one id at a time"""
    th = []
    used = {}
    for _ in range(r.choice([1, 2, 3, 4])):
        t = []
        for _ in range(r.choice([1, 1, 2])):
            cand = [a for a in w.ids if multi or a not in used]
            if not cand:
                break
            a = r.choice(cand)
            here = a in w.at
            if a in used:
                n = used[a]
            elif here:
                n = w.at[a][0]
            else:
                n = w.home[a]
            if n not in w.up:
                continue
            used[a] = n
            if here:
                if r.random() < dup:
                    t.append(w.reg(a, n))       # refused
                else:
                    t.append(w.unreg(a, n))
                    if r.random() < 0.4:
                        t.append(w.unreg(a, n))
                    if r.random() < 0.3 and multi:
                        o = w.reg(a, n)
                        t.append(o)
                        w.at[a] = (n, o["x"])
                    else:
                        w.at.pop(a, None)
            else:
                o = w.reg(a, n)
                t.append(o)
                w.at[a] = (n, o["x"])
                if r.random() < 0.15:
                    t.append(w.unreg(a, n))
                    w.at.pop(a)
        if t:
            th.append(t)
    return th


@many("registry")
def registry(r, prof, ident):
    lim, uniq = {"reg": (0.15, 0.1), "rules": (0.6, 0.4), "exit": (0.1, 0.1), "weight": (0.1, 0.1)}[prof]
    nn = r.choice([1, 2, 2, 3])
    if prof == "exit":
        nn = r.choice([2, 2, 3])
    many_ids = prof == "exit" and r.random() < 0.15
    w = W(r, nn, types(r, r.choice([1, 2, 3]), 0.0 if many_ids else lim, 0.0 if many_ids else uniq), 12 if many_ids else r.choice([3, 4, 6]))
    if many_ids:
        n = r.choice(w.real)
        for a in w.home:
            w.home[a] = n if r.random() < 0.8 else w.home[a]
        w.place(12)
    multi = r.random() < {"reg": 0.3, "rules": 0.6, "exit": 0.2, "weight": 0.5}[prof]
    for _ in range(r.choice([3, 4, 5, 7])):
        k = r.random()
        if prof in ("reg", "exit", "weight") and k < {"reg": 0.12, "exit": 0.35, "weight": 0.1}[prof] and w.up:
            n = r.choice(sorted(w.up))
            if prof == "exit" and r.random() < 0.3:
                # crash and restart: the records stay until the node exits properly, or are taken over
                w.phases.append(phase([{"op": "kill", "a": n}]))
                w.phases.append(phase([{"op": "start", "a": n}]))
                for a in [a for a in w.at if w.at[a][0] == n]:
                    w.at.pop(a)
                w.view()
                continue
            w.up.discard(n)
            th = [[{"op": "exit", "x": w.new("u"), "a": n}]]
            if r.random() < 0.25:
                th.append([{"op": "exit", "x": w.new("u"), "a": n}])
            if r.random() < 0.4:
                # others go on meanwhile
                for a in list(w.at):
                    if w.at[a][0] != n and r.random() < 0.5:
                        th.append([w.unreg(a, w.at[a][0])])
                        w.at.pop(a)
            for a in [a for a in w.at if w.at[a][0] == n]:
                w.at.pop(a)
            w.phases.append(phase(*th, adv=5000))
            w.gone(n)
        elif prof in ("reg", "exit") and k < 0.55 and len(w.up) < nn and r.random() < 0.7:
            n = r.choice([n for n in w.real if n not in w.up])
            w.up.add(n)
            w.phases.append(phase([{"op": "start", "a": n}]))
        elif prof in ("reg", "weight", "rules") and k > 0.9:
            # redis fails for a while: registrations fail without a trace
            th = [[w.reg(a, w.home[a])] for a in w.ids if a not in w.at and w.home[a] in w.up and r.random() < 0.6]
            if th:
                w.phases.append(phase([{"op": "fault", "f": True}]))
                w.phases.append(phase(*th))
                w.phases.append(phase([{"op": "fault", "f": False}]))
        elif prof in ("weight", "reg") and k > {"weight": 0.7, "reg": 0.82}[prof] and w.at:
            # the record of a running actor is removed by other nodes at the same time
            a = r.choice(sorted(w.at))
            n = w.at.pop(a)[0]
            other = sorted(w.up - {n})
            if other and r.random() < 0.5:
                # by another node alone
                w.phases.append(phase([w.unreg(a, r.choice(other))]))
                w.view()
                w.phases.append(phase([w.unreg(a, n)]))
                w.view()
                continue
            w.phases.append(phase(*[[w.unreg(a, r.choice(sorted(w.up)))] for _ in range(r.choice([1, 2, 3]))], [w.unreg(a, n)]))
        elif w.up:
            th = churn(w, r, multi, 0.3 if prof == "rules" else 0.12)
            if th:
                w.phases.append(phase(*th))
        w.view()
    return w.scn(ident)


@many("placement")
def placement(r, prof, ident):
    """records with arbitrary weights on nodes that may not even run"""
    t = types(r, r.choice([1, 2, 3]))
    w = W(r, 1, t, r.choice([4, 8, 12]), fake=r.choice([1, 2, 3, 4]))
    tys = sorted(t)
    pool = r.choice([[0, 0, 1], [1, 2, 3, 5, 10, 20], [-5, 0, 5], [100, 1000, 150000000], [7]])
    w.view()
    left = sorted(w.ids)
    for _ in range(r.choice([1, 2, 3])):
        th = []
        for _ in range(r.choice([1, 2, 4])):
            if not left:
                break
            a = left.pop()
            n = r.choice(w.names)
            th.append({"op": "raw", "x": w.new("x"), "a": n, "b": a, "k": r.choice(tys), "n": r.choice(pool)})
            w.at[a] = (n, th[-1]["n"])
        w.phases.append(phase(th))
        w.view()
        if r.random() < 0.5 and w.at:
            a = r.choice(sorted(w.at))
            w.phases.append(phase([{"op": "rawdel", "x": w.new("u"), "a": w.at[a][0], "b": a, "n": w.at[a][1]}]))
            w.at.pop(a)
            w.view()
    return w.scn(ident)


def msg(w, r, k, n, to, ty, prog=None, **kw):
    m = w.new("m")
    if prog:
        w.prog[m] = prog
    o = {"op": k, "x": m, "a": n, "b": to, "k": ty, "v": r.choice(["", "", "text", "empty", "big" if r.random() < 0.3 else ""])}
    o.update(kw)
    return o


@many("stale")
def stale(r, prof, ident):
    """records without an actor behind them on the caller's own node"""
    t = types(r, r.choice([1, 2, 3]))
    t["unk"] = {"w": -999, "lim": 0, "uniq": False}
    w = W(r, r.choice([1, 2, 2]), t, r.choice([3, 4, 6]))
    w.place(r.choice([0, 1, 2]))
    st = {}
    if r.random() < 0.35:
        # crash and restart
        n = r.choice(w.real)
        w.phases.append(phase([{"op": "kill", "a": n}]))
        w.phases.append(phase([{"op": "start", "a": n}]))
        for a in [a for a in w.at if w.at[a][0] == n]:
            st[a] = n
            w.at.pop(a)
    free = [a for a in w.ids if a not in w.at and a not in st]
    th = []
    unks = []
    for a in free:
        if r.random() < 0.6:
            n = w.home[a]
            unk = r.random() < 0.15
            th.append({"op": "raw", "x": w.new("x"), "a": n, "b": a, "k": "unk" if unk else w.ty[a], "n": 7 if unk else t[w.ty[a]]["w"], "f": not unk and r.random() < 0.4})
            if unk:
                unks.append(a)
            else:
                st[a] = n
    if th:
        w.phases.append(phase(th))
    w.view()
    for _ in range(r.choice([1, 2, 3])):
        th = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.random()
            if st and k < 0.75:
                a = r.choice(sorted(st))
                ty = w.ty[a]
                to = a if r.random() < 0.7 else r.choice(["?", "~"])
                for _ in range(r.choice([1, 1, 2])):
                    th.append([msg(w, r, r.choice(["call", "send"]), st[a], to, ty, **({"m": 10000} if r.random() < 0.3 else {}))])
            else:
                # an actor that is just being registered is called from its own node
                if unks and r.random() < 0.3:
                    a = r.choice(unks)
                    th.append([msg(w, r, r.choice(["call", "send"]), w.home[a], a, r.choice(sorted(t)))])
                    continue
                new = [a for a in w.ids if a not in w.at and a not in st and a not in unks]
                if new:
                    a = r.choice(new)
                    n = w.home[a]
                    o = w.reg(a, n)
                    w.at[a] = (n, o["x"])
                    th.append([o])
                    for _ in range(r.choice([1, 2])):
                        th.append([msg(w, r, r.choice(["call", "send"]), n, r.choice([a, a, "~", "?"]), w.ty[a])])
        w.phases.append(phase(*th))
        w.view()
        # what was cleaned can be registered again
        if r.random() < 0.5 and st:
            a = r.choice(sorted(st))
            n = st.pop(a)
            if r.random() < 0.6:      # or taken over as it is
                w.phases.append(phase([msg(w, r, "call", n, a, w.ty[a])]))
            o = w.reg(a, n)
            w.phases.append(phase([o]))
            w.at[a] = (n, o["x"])
            w.view()
    return w.scn(ident)


@many("routing")
def routing(r, prof, ident):
    t = types(r, r.choice([1, 2, 3]))
    w = W(r, r.choice([2, 2, 3]), t, r.choice([4, 5, 6]))
    if prof == "ctx":
        w.spare = [a for a in w.ids if r.random() < 0.4]
        for a in w.spare:
            w.home[a] = ""
    w.place(r.choice([2, 3, 4]))
    holding = []
    tys = sorted(t)
    dead = []
    flt = False
    for _ in range(r.choice([2, 3, 4])):
        th = []
        for _ in range(r.choice([1, 2, 3, 5])):
            th.append([one(w, r, prof, tys, holding, dead) for _ in range(r.choice([1, 1, 2]))])
        k = r.random()
        if prof == "fail" and k < 0.35 and w.at:
            # something disappears: before, or while the messages are on their way
            a = r.choice(sorted(w.at))
            n, x = w.at.pop(a)
            dead.append(a)
            how = r.choice(["unreg", "unreg", "stop", "exit", "kill"])
            o = {"unreg": lambda: w.unreg(a, n), "stop": lambda: {"op": "stop", "x": x},
                 "exit": lambda: {"op": "exit", "x": w.new("u"), "a": n}, "kill": lambda: {"op": "kill", "a": n}}[how]()
            if how in ("exit", "kill"):
                if len(w.up) < 2:
                    o = w.unreg(a, n)
                else:
                    w.up.discard(n)
                    for b in [b for b in w.at if w.at[b][0] == n]:
                        dead.append(b)
                        w.at.pop(b)
                    th = [[o2 for o2 in q if o2.get("a") != n] for q in th]
            if r.random() < 0.6:
                w.phases.append(phase([o], adv=r.choice([0, 1, 12000])))
            else:
                th.append([{"op": "sleep", "n": r.choice([0, 1])}, o])
        elif prof in ("sym", "route", "ctx") and k < 0.3 and w.at:
            a = r.choice(sorted(w.at))
            w.phases.append(phase([w.unreg(a, w.at.pop(a)[0])]))
        elif k < 0.5 and len(w.at) < len(w.ids):
            w.place(1)
        w.phases.append(phase(*th, adv=r.choice([0, 0, 5, 1000])))
        if holding and r.random() < 0.7:
            w.phases.append(phase([{"op": "go", "l": holding[:]}]))
            holding.clear()
    w.phases.append(phase([{"op": "go", "l": holding[:]}], adv=100))
    w.phases.append(phase(adv=32000))
    # quiet again: everything still works
    for a in sorted(w.at)[:2]:
        n = r.choice(sorted(w.up))
        w.phases.append(phase([msg(w, r, "call", n, a, w.ty[a])]))
    return w.scn(ident)


def one(w, r, prof, tys, holding, dead):
    k = {"route": ["call"] * 8 + ["send"], "ctx": ["call"] * 3 + ["send"] * 2, "sym": ["call"] * 3 + ["send"], "send": ["send"] * 5 + ["call"], "fail": ["call"] * 5 + ["send"]}[prof]
    n = r.choice(sorted(w.up))
    kind = r.choice(k)
    to, ty = target(w, r, prof, tys, dead)
    prog = []
    if r.random() < 0.3:
        prog.append({"op": "hold"})
    elif r.random() < 0.15:
        prog.append({"op": "sleep", "n": r.choice([1, 20, 7000 if r.random() < 0.3 else 5, 3000])})
    if r.random() < 0.25:
        to2, ty2 = target(w, r, prof, tys, dead)
        prog.append(dict(msg(w, r, r.choice(["call", "call", "send", "nsend", "ncall", "ncall", "rcall", "rcall"]), n, to2, ty2), f=r.random() < 0.5))
    if prof == "ctx":
        for _ in range(r.choice([1, 2, 3, 4])):
            q = r.random()
            if q < 0.3:
                c = {"op": "put", "k": r.choice("kl"), "v": w.new("v")}
            elif q < 0.65:
                c = {"op": "get", "k": r.choice("kl")}
            elif q < 0.82:
                c = {"op": "who"}
            elif q < 0.93 and w.spare:
                a = w.spare.pop()      # only ever registered here
                c = {"op": "creg", "x": w.new("x"), "b": a, "k": w.ty[a]}
                w.spawned.append(a)
            elif w.spawned or w.at:
                a = r.choice(w.spawned or sorted(w.at))
                w.at.pop(a, None)
                c = {"op": "cunreg", "x": w.new("u"), "b": a, "k": w.ty[a]}
            else:
                c = {"op": "who"}
            prog.insert(r.randrange(len(prog) + 1), c)
    if r.random() < 0.1:
        prog.append({"op": r.choice(["err", "panic"])})
    o = msg(w, r, kind, n, to, ty, prog)
    if kind == "send" and to in w.at and r.random() < 0.35:
        # the same wrapper goes to several actors
        more = [a for a in sorted(w.at) if a != to]
        if more:
            o["ops"] = r.sample(more, min(len(more), r.choice([1, 2])))
            w.prog.pop(o["x"], None)
            return o
    if any(p["op"] == "hold" for p in prog):
        holding.append(o["x"])
    if r.random() < 0.12:
        o["m"] = r.choice([5, 50])
    if r.random() < 0.2:
        o["f"] = True
        o["l"] = [r.choice(sorted(w.ids))] if r.random() < 0.5 else ["someone"]
    return o


def target(w, r, prof, tys, dead):
    k = r.random()
    sym = {"route": 0.1, "ctx": 0.2, "sym": 0.85, "send": 0.25, "fail": 0.2}[prof]
    if k < sym:
        return r.choice(["?", "~"]), r.choice(tys)
    if prof == "fail" and k < sym + 0.45:
        a = r.choice((dead or [""]) + ["", "nobody"])
        return a, w.ty.get(a, tys[0])
    if w.at:
        a = r.choice(sorted(w.at))
        return a, w.ty[a]
    return r.choice(sorted(w.ids)), tys[0]
