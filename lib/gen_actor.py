"""Random environments for the actor runtime: what clients, handlers and time do."""
import random

import vf

TIMES = [1, 7, 30, 120, 700]


class G:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = prof
        self.n = 0
        self.prog = {}
        self.bfail = {}
        self.afail = {}
        self.open = []       # messages whose handler is steered step by step
        self.tms = []
        self.tmprog = {}
        self.x = 0
        na = rng.choice(prof.get("na", [2, 3, 3, 4]))
        tys = ["T", "T", "U", "U", "T"]
        self.actors = [["a%d" % (i + 1), tys[i]] for i in range(na)]
        self.names = [a for a, _ in self.actors]
        self.fwdchain = {}

    def w(self, k, d=0.0):
        return self.p.get(k, d)

    def chance(self, k, d=0.0):
        return self.r.random() < self.w(k, d)

    def msg(self, depth=0, at=None, ctl=False):
        """a fresh message; most get a program, some are steered"""
        self.n += 1
        m = "m%d" % self.n
        if self.chance("bfail", 0.06):
            self.bfail[m] = self.r.choice(["err", "panic"])
            return m
        if ctl:
            self.open.append((m, at))
        else:
            self.prog[m] = self.program(depth, at)
        return m

    def program(self, depth, at):
        ops = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            o = self.op(depth, at)
            if o:
                ops.append(o)
        ops.append(self.end())
        return ops

    def end(self):
        x = self.r.random()
        f = self.w("fail", 0.2)
        if x < f:
            return {"do": "end", "out": self.r.choice(["err", "panic", "panic", "aerr", "apanic"])}
        return {"do": "end", "out": "ok"}

    def dst(self, at=None):
        x = self.r.random()
        if x < self.w("sym", 0.06):
            return self.r.choice(["?", "~"]), self.r.choice(["T", "U"])
        return self.r.choice(self.names), ""

    def ev(self, o):
        """a message for an event which is registered late, or never"""
        if self.chance("unh", 0.04):
            o["ev"] = "nope"
        elif self.chance("late", 0.06):
            o["ev"] = self.r.choice(["x1", "x2"])
        return o

    def onev(self, at):
        self.x += 1
        return {"x": "x%d" % self.x, "a": at, "ev": self.r.choice(["x1", "x1", "x2", "ev"])}

    def op(self, depth, at):
        """one instruction to a handler at actor at"""
        if at is not None and self.chance("honev", 0.03):
            return dict(self.onev(at), do="onev")
        if self.n > self.p.get("maxmsg", 9):
            return {"do": "sleep", "ms": self.r.choice(TIMES)}
        kinds = self.p.get("ops") or {"sleep": 3, "ncall": 4, "nsend": 2, "send": 2, "call": 1, "re": 1, "fwd": 1}
        k = self.r.choices(list(kinds), list(kinds.values()))[0]
        if k == "sleep":
            ms = self.r.choice(TIMES + ([5200, 11000] if not self.p.get("timers") and self.chance("longsleep", 0.05) else []))
            return {"do": "sleep", "ms": ms}
        if k in ("exit", "unreg"):
            others = [a for a in self.names if a != at]
            if at is None or not others:
                return {"do": "sleep", "ms": 3}
            self.x += 1
            return {"do": k, "x": "x%d" % self.x, "a": self.r.choice(others)}
        if k == "tmreg":
            return self.tmreg(at)
        if k == "tmcancel":
            mine = [t for t, a, i in self.tms if a == at]
            return {"do": "tmcancel", "tm": self.r.choice(mine)} if mine else {"do": "sleep", "ms": 2}
        if k in ("tmstop", "tmreset"):
            mine = [(t, i) for t, a, i in self.tms if a == at and i > 0]
            if not mine:
                return {"do": "sleep", "ms": 2}
            t, i = self.r.choice(mine)
            return {"do": k, "tm": t} if k == "tmstop" else {"do": k, "tm": t, "ival": self.r.choice([0, i, 5, 15, 50, 200])}
        to, ty = self.dst(at)
        fwd = k == "fwd" or self.chance("fwd", 0.1)
        do = {"fwd": self.r.choice(["ncall", "nsend", "call"])}.get(k, k)
        dest = None if to in "?~" else to
        m = self.msg(depth + 1, dest, ctl=depth < 2 and self.chance("ctl", 0.25))
        o = {"do": do, "m": m, "to": to}
        if ty:
            o["ty"] = ty
        if fwd:
            o["fwd"] = True
        if do in ("ncall", "nsend", "re") and to != at and self.chance("own", 0.12):
            o["own"] = True
        elif do == "re" and self.chance("inh", 0.35):
            o["inh"] = True
        if do == "ncall" and to != at and self.chance("sys", 0.12):
            o["via"] = "sys"
        if do in ("call", "re") and self.chance("dl", 0.2):
            o["dl"] = self.r.choice([20, 200, 3000, 7000])
        return self.ev(o)

    def tmreg(self, at):
        t = "t%d" % (len(self.tms) + 1)
        due = self.r.choice([0, 0, 5, 20, 90, 300])
        ival = self.r.choice([0, 10, 25, 60, 400])
        self.tms.append((t, at, ival))
        ops = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            at_ = self.r.choice([0, 1, 1, 2, 3])
            k = self.r.choice(["sleep", "sleep", "tmcancel", "panic", "err", "send", "reset", "stop"])
            if k == "sleep":
                ops.append({"at": at_, "do": "sleep", "ms": self.r.choice([1, 8, 30, 130])})
            elif k == "tmcancel":
                ops.append({"at": max(1, at_), "do": "tmcancel", "tm": t})
            elif k == "send" and self.n < self.p.get("maxmsg", 9) and at_:
                m = self.msg(2, None)
                ops.append({"at": at_, "do": "send", "m": m, "to": self.r.choice(self.names)})
            elif k == "reset" and ival > 0 and at_:
                ops.append({"at": at_ + 1, "do": "tmreset", "tm": t, "ival": self.r.choice([5, 15, 50, 200])})
            elif k == "stop" and ival > 0 and at_:
                ops.append({"at": at_, "do": "tmstop", "tm": t})
                if self.r.random() < 0.3:
                    ops.append({"at": at_, "do": "tmreset", "tm": t, "ival": self.r.choice([0, 15, 50])})
            elif k in ("panic", "err"):
                ops.append({"at": at_, "do": k})
        # nothing after a cancel at the same firing would matter; keep resets before cancels
        cancels = [o for o in ops if o["do"] == "tmcancel"]
        if cancels:
            ops = [o for o in ops if o["do"] != "tmreset"]
        self.tmprog[t] = ops
        return {"do": "tmreg", "tm": t, "due": due, "ival": ival}

    def scenario(self, ident):
        r = self.r
        steps = []
        ns = r.randint(*self.p.get("steps", (4, 14)))
        calls = []
        stops = bursts = 0
        if self.p.get("timers"):
            for _ in range(r.choice([1, 1, 2, 3])):
                at = r.choice(self.names)
                self.n += 1
                m = "m%d" % self.n
                k = r.choice([1, 1, 2])
                self.prog[m] = [self.tmreg(at) for _ in range(k)] + [{"do": "end", "out": "ok"}]
                steps.append({"op": "inv", "m": m, "kind": r.choice(["send", "call"]), "to": at})
                if r.random() < 0.5:
                    steps.append({"op": "adv", "ms": r.choice(TIMES)})
        for _ in range(ns):
            k = r.choices(["inv", "tok", "settle", "adv", "cancel", "stop", "onev", "ones", "burst"],
                          [self.w("w_inv", 6), self.w("w_tok", 6) if self.open else 0, self.w("w_settle", 4), self.w("w_adv", 3),
                           self.w("w_cancel", 0.6) if calls else 0, self.w("w_stop", 0.4) if stops < self.p.get("maxstop", 2) else 0,
                           self.w("w_onev", 0.5), self.w("w_ones", 0.5),
                           3 if self.p.get("burst") and bursts < 1 else 0])[0]
            if k == "burst":
                bursts += 1
                at = r.choice(self.names)
                if r.random() < 0.8:
                    # the actor is busy while they pile up
                    m = self.msg(0, at, ctl=True)
                    steps += [{"op": "inv", "m": m, "kind": "send", "to": at}, {"op": "settle"}]
                for _ in range(r.choice([1, 1, 2])):
                    l = []
                    for _ in range(r.choice(self.p["burst"])):
                        self.n += 1
                        m = "m%d" % self.n
                        self.prog[m] = [{"do": "end", "out": "ok"}]
                        l.append(m)
                    steps.append({"op": "invs", "l": l, "kind": "send", "to": at})
                if r.random() < 0.6:
                    steps.append({"op": "settle"})
            elif k == "onev":
                steps.append(dict(self.onev(r.choice(self.names)), op="onev"))
            elif k == "ones":
                # one client makes several calls with the same wrapper
                at = r.choice(self.names)
                steps.append(self.ev({"op": "invs", "one": True, "kind": "call", "to": at,
                                      "l": [self.msg(0, at, ctl=self.chance("ctl", 0.4) and i == 0) for i in range(r.choice([2, 2, 3]))]}))
            elif k == "inv":
                if self.n >= self.p.get("maxmsg", 9):
                    continue
                to, ty = self.dst()
                dest = None if to in "?~" else to
                m = self.msg(0, dest, ctl=self.chance("ctl", 0.4))
                s = {"op": "inv", "m": m, "kind": "call" if r.random() < self.w("call", 0.5) else "send", "to": to}
                if ty:
                    s["ty"] = ty
                if s["kind"] == "call" and self.chance("dl", 0.2):
                    s["dl"] = r.choice([20, 200, 3000, 7000])
                if self.chance("org", 0.02) and dest:
                    s["org"] = r.choice(self.names)
                calls.append(m)
                steps.append(self.ev(s))
            elif k == "tok":
                i = r.randrange(len(self.open))
                m, at = self.open[i]
                if r.random() < 0.45:
                    steps.append({"op": "tok", "m": m, "do": self.end()})
                    self.open.pop(i)
                else:
                    steps.append({"op": "tok", "m": m, "do": self.op(0, at)})
            elif k == "settle":
                steps.append({"op": "settle"})
            elif k == "adv":
                steps.append({"op": "adv", "ms": r.choice(TIMES + ([5200] if not self.tms and self.chance("long", 0.15) else []) + ([10500] if not self.tms and self.chance("vlong", 0.05) else []))})
                if r.random() < 0.6:
                    steps.append({"op": "settle"})
            elif k == "cancel":
                steps.append({"op": "cancel", "m": r.choice(calls)})
            elif k == "stop":
                stops += 1
                a = r.choice(self.names)
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    self.x += 1
                    steps.append({"op": r.choice(["exit", "unreg"]), "x": "x%d" % self.x, "a": a})
        steps.append({"op": "settle"})
        # let what is left finish
        if r.random() < self.w("finish", 0.7):
            left = list(self.open)
            r.shuffle(left)
            for m, at in left:
                steps.append({"op": "tok", "m": m, "do": self.end()})
                if r.random() < 0.4:
                    steps.append({"op": "settle"})
        steps.append({"op": "settle"})
        for ms in self.p.get("tail", [r.choice([50, 400] if self.tms else [50, 400, 2500, 6000])]):
            steps.append({"op": "adv", "ms": ms})
            steps.append({"op": "settle"})
        if r.random() < self.w("probe", 0.5):
            # every actor must still be there
            for a in self.names:
                self.n += 1
                m = "m%d" % self.n
                self.prog[m] = [{"do": "end", "out": "ok"}]
                steps.append({"op": "inv", "m": m, "kind": r.choice(["call", "send"]), "to": a})
            steps.append({"op": "settle"})
        return {"id": ident, "actors": self.actors, "prog": self.prog, "bfail": self.bfail, "afail": self.afail, "tmprog": self.tmprog,
                "steps": steps, "slack": 0}


PROFILES = {
    "base": {},
    "events": {"late": 0.4, "unh": 0.1, "honev": 0.12, "w_onev": 3, "fail": 0.3},
    "serial": {"ctl": 0.3, "timers": True, "ops": {"sleep": 4, "ncall": 3, "send": 3, "nsend": 2}, "w_adv": 4},
    "queue": {"na": [2, 2, 3], "call": 0.3, "maxmsg": 14, "w_inv": 10, "ctl": 0.3, "steps": (6, 20), "ops": {"sleep": 2, "ncall": 3, "nsend": 4, "send": 4}},
    "burst": {"burst": [9, 14, 20, 33, 40, 70, 130, 300], "na": [1, 2], "steps": (5, 9), "w_stop": 1.5, "tail": [1500], "maxmsg": 700, "w_inv": 2, "ctl": 0.3,
              "ops": {"sleep": 3, "send": 1}, "call": 0.3, "probe": 0},
    "stopre": {"w_stop": 3, "maxstop": 3, "call": 0.3, "tail": [12500], "w_inv": 8, "probe": 0.3, "ops": {"sleep": 3, "re": 6, "ncall": 2, "send": 1}},
    "fail": {"w_onev": 1.5, "late": 0.1, "fail": 0.7, "bfail": 0.2, "probe": 1.0, "call": 0.7},
    "failtm": {"fail": 0.6, "bfail": 0.2, "probe": 1.0, "timers": True},
    "stop": {"w_stop": 3, "maxstop": 4, "call": 0.4, "tail": [12500], "w_inv": 8, "probe": 0.6, "ops": {"sleep": 4, "ncall": 3, "nsend": 2, "send": 3, "exit": 1, "unreg": 1, "call": 1}},
    "stoptm": {"w_stop": 2.5, "maxstop": 4, "timers": True, "tail": [300], "w_adv": 4},
    "tree": {"call": 0.9, "maxmsg": 13, "ops": {"sleep": 2, "ncall": 6, "nsend": 3, "send": 1}, "ctl": 0.45, "w_tok": 9},
    "bound": {"call": 0.85, "dl": 0.4, "w_cancel": 2, "longsleep": 0.4, "long": 0.5, "ctl": 0.5, "finish": 0.4, "tail": [5200, 5200], "ops": {"sleep": 3, "ncall": 3, "call": 3, "nsend": 1}},
    "cycle": {"na": [2, 3, 3], "fwd": 0.6, "org": 0.25, "call": 0.7, "sym": 0.15, "ops": {"ncall": 4, "fwd": 6, "call": 3, "re": 2, "sleep": 1}, "tail": [5500]},
    "re": {"ops": {"re": 7, "sleep": 2, "ncall": 2, "call": 1}, "dl": 0.4, "w_cancel": 2, "long": 0.4, "longsleep": 0.25, "tail": [5200, 31000], "fail": 0.3},
    "timer": {"timers": True, "ops": {"tmreg": 3, "tmcancel": 3, "tmstop": 2, "tmreset": 4, "sleep": 3, "send": 1}, "w_adv": 8, "steps": (6, 18), "ctl": 0.3, "w_stop": 0.5, "call": 0.2},
}


def drain_re(seed, n):
    """actors that are stopped while replies to their re-entrant calls wait behind a long handler"""
    out = []
    for i in range(n):
        r = random.Random("drain_re/%s/%d" % (seed, i))
        actors = [["a1", "T"], ["a2", "U"], ["a3", "U"]]
        prog, steps = {}, []
        k = r.choice([1, 1, 2, 4])
        res = []
        for j in range(k):
            m = "r%d" % j
            prog[m] = [{"do": "sleep", "ms": r.choice([1, 7, 30])}, {"do": "end", "out": r.choice(["ok", "ok", "err"])}]
            res.append({"do": "re", "m": m, "to": r.choice(["a2", "a3"])})
        long = r.choice([2600, 3100, 4000])
        tail = [{"do": "re", "m": "late", "to": "a2"}] if r.random() < 0.3 else []
        prog["late"] = [{"do": "end", "out": "ok"}]
        prog["h"] = res + [{"do": "sleep", "ms": long}] + tail + [{"do": "end", "out": r.choice(["ok", "err", "panic"])}]
        steps.append({"op": "inv", "m": "h", "kind": r.choice(["send", "call"]), "to": "a1"})
        for j in range(r.choice([0, 0, 1, 2])):
            prog["q%d" % j] = [{"do": "end", "out": "ok"}]
            steps.append({"op": "inv", "m": "q%d" % j, "kind": "send", "to": "a1"})
        steps += [{"op": "adv", "ms": r.choice([50, 500])}, {"op": r.choice(["exit", "unreg"]), "x": "x1", "a": "a1"}]
        if r.random() < 0.5:
            steps.append({"op": "adv", "ms": long - r.choice([0, 1, 60])})
        steps += [{"op": "adv", "ms": 6000}, {"op": "settle"}]
        out.append({"id": "drainre-%d" % i, "actors": actors, "prog": prog, "steps": steps, "slack": 0, "long": True})
    return out


def pile(seed, n):
    """timers of a busy actor fire much more often than it can take, and then it is busy with messages"""
    out = []
    for i in range(n):
        r = random.Random("pile/%s/%d" % (seed, i))
        prog, steps, tmprog = {}, [], {}
        ts = ["t%d" % j for j in range(r.choice([4, 5, 6]))]
        for t in ts:
            tmprog[t] = [{"at": 0, "do": "sleep", "ms": 1}] if r.random() < 0.3 else []
        prog["m0"] = [{"do": "tmreg", "tm": t, "due": 0, "ival": 1} for t in ts] + [{"do": "end", "out": "ok"}]
        steps += [{"op": "inv", "m": "m0", "kind": "call", "to": "a1"}, {"op": "settle"}]
        for j in range(r.choice([1, 2])):
            m = "h%d" % j
            prog[m] = [{"do": "sleep", "ms": 1100 // len(ts) + r.choice([40, 60])}, {"do": "end", "out": r.choice(["ok", "err", "panic"])}]
            steps.append({"op": "inv", "m": m, "kind": r.choice(["send", "call"]), "to": "a1"})
            if r.random() < 0.5:
                steps.append({"op": "adv", "ms": r.choice([1, 5])})
        prog["k"] = [{"do": "tmcancel", "tm": t} for t in ts] + [{"do": "end", "out": "ok"}]
        steps += [{"op": "inv", "m": "k", "kind": "send", "to": "a1"}, {"op": "adv", "ms": 1500}, {"op": "settle"}]
        out.append({"id": "pile-%d" % i, "actors": [["a1", "T"]], "prog": prog, "tmprog": tmprog, "steps": steps, "slack": 0})
    return out


def wide(seed, n):
    """a call whose handler spreads out to many others"""
    out = []
    for i in range(n):
        r = random.Random("wide/%s/%d" % (seed, i))
        prog, steps = {}, []
        k = r.choice([30, 64, 65, 70, 100, 140])
        ops = []
        for j in range(k):
            m = "c%d" % j
            x = r.random()
            prog[m] = ([{"do": "sleep", "ms": r.choice([1, 3, 20])}] if x < 0.1 else []) + [{"do": "end", "out": r.choice(["ok", "ok", "ok", "err"])}]
            ops.append({"do": r.choice(["nsend", "ncall"]), "m": m, "to": r.choice(["a2", "a2", "a3"])})
            if r.random() < 0.02:
                ops.append({"do": "sleep", "ms": 1})
        prog["m"] = ops + [{"do": "end", "out": r.choice(["ok", "ok", "panic"])}]
        steps += [{"op": "inv", "m": "m", "kind": "call", "to": "a1"}, {"op": "adv", "ms": 50}, {"op": "settle"}, {"op": "adv", "ms": 4000}, {"op": "settle"}]
        out.append({"id": "wide-%d" % i, "actors": [["a1", "T"], ["a2", "U"], ["a3", "U"]], "prog": prog, "steps": steps, "slack": 0})
    return out


def stopone(seed, n):
    """a handful of messages around the moment at which an actor is stopped"""
    out = []
    for i in range(n):
        r = random.Random("stopone/%s/%d" % (seed, i))
        prog, steps = {}, []
        nm = r.choice([1, 1, 2, 3])
        todo = ["i%d" % j for j in range(nm)] + ["x"] * r.choice([1, 1, 1, 2])
        first = r.random() < 0.5
        if not first:
            r.shuffle(todo)
        x = 0
        for j, t in enumerate(todo):
            if t == "x":
                x += 1
                steps.append({"op": r.choice(["exit", "unreg"]), "x": "x%d" % x, "a": "a1"})
            else:
                prog[t] = [{"do": "sleep", "ms": r.choice([5, 10, 11, 20, 25, 40])}, {"do": "end", "out": r.choice(["ok", "ok", "err"])}]
                steps.append({"op": "inv", "m": t, "kind": r.choice(["send", "send", "call"]), "to": "a1"})
            if r.random() < 0.5:
                steps.append({"op": "adv", "ms": r.choice([1, 2, 5, 9, 10, 12])})
        steps += [{"op": "settle"}, {"op": "adv", "ms": 3000}, {"op": "settle"}]
        out.append({"id": "stopone-%d" % i, "actors": [["a1", "T"]], "prog": prog, "steps": steps, "slack": 0, "focus": True})
    return out


SPECIAL = {"drainre": drain_re, "pile": pile, "wide": wide, "stopone": stopone}


def gen(profile, seed, n):
    if profile in SPECIAL:
        return SPECIAL[profile](seed, n)
    out = []
    for i in range(n):
        rng = random.Random("%s/%s/%d" % (profile, seed, i))
        out.append(G(rng, PROFILES[profile]).scenario("%s-%d" % (profile, i)))
    return out


def place(site):
    """the function a yield point is in"""
    if site < len(vf.SITES):
        f = vf.SITES[site].split(":")
        return f[0], f[2]
    return "", ""


# functions in which nothing of interest is decided
DULL = ("lib/log/", "core/actor/actor_context_impl.go", "lib/span/")


def focus(scn, hits, rng, budget=None):
    """every goroutine that passes through one or two chosen functions is slowed down again and again"""
    fns = {}
    for site, n in hits:
        f = place(site)
        if not f[0].startswith(DULL):
            fns.setdefault(f, []).append(site)
    if not fns:
        return None
    pick = rng.sample(sorted(fns), min(len(fns), rng.choice([1, 1, 2])))
    s = dict(scn)
    b = budget or rng.choice([100, 500, 1500])
    us = [1, 400] if b <= 20 else rng.choice([[1, 5000, 12000], [1, 9000, 30000]]) if scn.get("focus") else rng.choice([[1], [1, 1000], [1, 1000, 5000], [1, 5000, 12000], [1, 9000, 30000]])
    s["sched"] = {"seed": rng.randrange(1 << 30), "permil": rng.choice([100, 300, 600]), "us": us,
                  "focus": [x for f in pick for x in fns[f]], "budget": b * 1000}
    s["slack"] = b + 20
    return s


def perturb(scn, hits, rng, budget=None):
    """a variant of a scenario in which goroutines are held at chosen points"""
    if hits and rng.random() < (0.9 if scn.get("focus") else 0.35):
        s = focus(scn, hits, rng, budget)
        if s:
            return s
    s = dict(scn)
    if hits and rng.random() < (0.4 if scn.get("long") else 0.75):
        tot = [(site, n) for site, n in hits]
        holds = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            site, n = rng.choice(tot)
            holds.append({"site": site, "nth": rng.randint(1, n), "us": rng.choice([1, 1000, 12000, 45000])})
        s["sched"] = {"seed": rng.randrange(1 << 30), "holds": holds}
        s["slack"] = 20 + sum(h["us"] for h in holds) // 1000 + 1
    elif scn.get("long"):
        s["sched"] = {"seed": rng.randrange(1 << 30), "permil": rng.choice([15, 40]), "us": rng.choice([[11000], [15000, 25000]])}
        s["slack"] = 2500
    elif "prog" in scn and not scn.get("tmprog") and rng.random() < 0.3:
        # long delays, long enough to be overtaken by the runtime's own polling
        s["sched"] = {"seed": rng.randrange(1 << 30), "permil": rng.choice([3, 8, 15]), "us": rng.choice([[11000], [15000, 25000]])}
        s["slack"] = 2500
    else:
        s["sched"] = {"seed": rng.randrange(1 << 30), "permil": rng.choice([5, 20, 60, 150]), "us": rng.choice([[1], [1, 50], [1, 400]])}
        s["slack"] = 500
    return s
