"""Scenarios of topics, channels and subscribers."""
import random
from gen_small import many, scn, phase

TOPICS = ["t", "t1", "t11", "t:1", "{t}", "ж t", "t*", "braid", "a\"b"]
CHANS = ["c1", "c2", "e1", "ж", "a b", "init", "c:*", "$", "msg", "0-0"]
EVENTS = ["e1", "e2", "e3", "ж e", "init"]


class W:
    def __init__(self, r, nn, ntop, nact, nraw=0):
        self.r = r
        self.nodes = ["n%d" % (i + 1) for i in range(nn)]
        self.topics = dict(zip(["t%d" % (i + 1) for i in range(ntop)], r.sample(TOPICS, ntop)))
        self.chans = {t: r.sample(CHANS, 4) for t in self.topics}
        self.acts = {"a%d" % (i + 1): r.choice(self.nodes) for i in range(nact)}
        self.free = {a: list(self.topics) for a in self.acts}   # topics it may still subscribe to
        self.alive = set(self.acts)
        self.subs = []       # [s, x, tp, ch, raw, open]
        self.c = {"s": 0, "m": 0, "o": 0, "k": 0}
        self.prog, self.init = {}, {}
        self.ttl = {t: 0 for t in self.topics}
        self.phases = [phase(*[[{"op": "start", "a": n}] for n in self.nodes])]
        self.onech = False   # topics have one channel each: its name may be used as an event
        self.slow = 0.0
        self.empty = False
        self.held = []

    def new(self, k):
        self.c[k] += 1
        return "%s%d" % (k, self.c[k])

    def up(self):
        """the actors are registered, some subscribe in Init"""
        self.phases.append(phase(*[[{"op": "act", "a": n, "x": a}] for a, n in self.acts.items()], adv=1))

    def sub(self, tp, ch, raw=False, init=False):
        r = self.r
        if raw:
            s = self.new("s")
            self.subs.append([s, s, tp, ch, True, True])
            if r.random() < 0.4:   # from the beginning of the topic
                return {"op": "raw", "x": s, "a": r.choice(["g1", "g2"]), "b": tp, "k": ch, "n": self.ttl[tp], "f": True}
            return {"op": "raw", "x": s, "a": r.choice(self.nodes), "b": tp, "k": ch, "n": self.ttl[tp]}
        cand = [a for a in self.alive if tp in self.free[a]]
        if not cand:
            return None
        a = r.choice(sorted(cand))
        self.free[a].remove(tp)
        s = self.new("s")
        self.subs.append([s, a, tp, ch, False, True])
        o = {"op": "sub", "x": s, "v": a, "a": self.acts[a], "b": tp, "k": ch, "n": self.ttl[tp]}
        if init:
            self.init.setdefault(a, []).append(o)
            return None
        return o

    def pub(self, tp, kind=None, hold=False):
        r = self.r
        m = self.new("m")
        ev = r.choice(EVENTS)
        if self.onech and r.random() < 0.5:
            ev = self.chans[tp][0]
        v = kind or r.choice(["text", "rnd", "rnd", "rnd"])
        if r.random() < 0.02:
            v = "big"
        if r.random() < 0.05 and not self.empty:
            v, self.empty = "empty", True
        o = {"op": "pub" if r.random() < 0.8 else "mpub", "x": m, "b": tp, "k": ev, "v": v}
        o["a"] = r.choice(self.nodes) if o["op"] == "pub" else r.choice(["g1", "g2"])
        if hold:
            self.prog[m] = [{"op": "hold"}]
            self.held.append(m)
        elif r.random() < self.slow:
            self.prog[m] = [{"op": "sleep", "n": r.choice([1, 5, 15, 30])}]
        elif r.random() < 0.05:
            self.prog[m] = [{"op": "panic"}]
        return o

    def burst(self, tps, lo, hi, hold=False):
        r = self.r
        th = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = []
            for _ in range(r.randint(lo, hi)):
                t.append(self.pub(r.choice(tps), hold=hold and r.random() < 0.3))
                if r.random() < 0.1:
                    t.append({"op": "sleep", "n": r.choice([1, 5, 10, 12])})
            th.append(t)
        return th

    def flood(self, tp, n):
        k = self.r.choice([1, 2, 3])
        slow, self.slow = self.slow, 0.0
        th = [[self.pub(tp, kind="text") for _ in range(n // k)] for _ in range(k)]
        self.slow = slow
        return th

    def release(self):
        if self.held:
            self.phases.append(phase([{"op": "go", "l": list(self.held)}]))
            self.held = []

    def look(self):
        self.phases.append(phase(adv=1))
        self.phases.append(phase([{"op": "look"}]))

    def scn(self, ident):
        self.release()
        self.look()
        return scn(ident, self.phases, {"topics": self.topics, "prog": self.prog, "init": self.init}, 0)

    def pfault(self, ops):
        """some commands fail for a while"""
        self.phases.append(phase([{"op": "pfault", "k": self.r.choice(["xinfo", "xreadgroup", "pipeline", "xreadgroup"])}]))
        self.phases.append(phase(*ops, adv=self.r.choice([0, 1])))
        self.phases.append(phase([{"op": "pfault", "k": ""}], adv=1))

    def fault(self, ops):
        self.phases.append(phase([{"op": "fault", "f": True}], adv=1))
        self.phases.append(phase(*ops, adv=self.r.choice([1, 1, 3])))
        self.phases.append(phase([{"op": "fault", "f": False}], adv=1))


def adv(r):
    return r.choice([0, 0, 1, 1])


@many("pubsub")
def pubsub(r, prof, ident):
    return globals()["g_" + prof](r, ident)


def g_single(r, ident):
    """every channel has one subscription, topics have one or two channels"""
    w = W(r, r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]), r.choice([1, 2, 3]))
    w.onech = r.random() < 0.6
    w.slow = r.choice([0, 0, 0.2])
    flood = r.random() < 0.03
    tps = list(w.topics)
    ops = []
    for tp in tps:
        for ch in w.chans[tp][:1 if w.onech else r.choice([1, 2])]:
            k = r.random()
            o = w.sub(tp, ch, raw=k < 0.25, init=0.25 < k < 0.6)
            if o:
                ops.append(o)
    if r.random() < 0.4:  # before any subscription
        w.phases.append(phase(*w.burst(tps, 1, 3), adv=adv(r)))
    w.up()
    if r.random() < 0.3:
        w.phases.append(phase(*w.burst(tps, 1, 3), adv=adv(r)))
    r.shuffle(ops)
    cut = r.randint(0, len(ops))
    for part in (ops[:cut], ops[cut:]):
        th = [[o] for o in part]
        if r.random() < 0.4:
            th += w.burst(tps, 1, 3)
        w.phases.append(phase(*th, adv=adv(r)))
        hold = r.random() < 0.3
        w.phases.append(phase(*w.burst(tps, 1, r.choice([2, 5, 15])), adv=adv(r)))
        if hold:
            w.phases.append(phase(*w.burst(tps, 1, 8, hold=True), adv=adv(r)))
            if r.random() < 0.5:
                w.phases.append(phase(*w.burst(tps, 1, 12), adv=1))
            w.release()
        if flood and ops[:cut]:
            # one message keeps the subscriber busy, and a lot is published meanwhile
            flood, tp = False, r.choice(ops[:cut])["b"]
            w.phases.append(phase([w.pub(tp, hold=True)], adv=1))
            w.phases.append(phase(*w.flood(tp, r.choice([120, 230])), adv=1))
            w.release()
            w.phases.append(phase(adv=1))
        if r.random() < 0.3:
            w.phases.append(phase(adv=1))
            w.fault([[w.pub(r.choice(tps))] for _ in range(r.choice([0, 1, 2]))])
            w.phases.append(phase(*w.burst(tps, 1, 4), adv=adv(r)))
    return w.scn(ident)


def g_share(r, ident):
    """several subscriptions on a channel"""
    w = W(r, r.choice([1, 2, 3]), r.choice([1, 1, 2]), r.choice([3, 4, 5]))
    w.slow = r.choice([0, 0.3, 0.6])
    tps = list(w.topics)
    ops = []
    nch = r.choice([1, 1, 2])
    for tp in tps:
        for i in range(r.choice([2, 3, 4])):
            k = r.random()
            o = w.sub(tp, r.choice(w.chans[tp][:nch]), raw=k < 0.3, init=0.3 < k < 0.5)
            if o:
                ops.append(o)
    w.up()
    r.shuffle(ops)
    while ops:
        n = r.randint(1, len(ops))
        th = [[o] for o in ops[:n]]
        ops = ops[n:]
        if r.random() < 0.5:
            th += w.burst(tps, 1, 4)
        w.phases.append(phase(*th, adv=adv(r)))
        w.phases.append(phase(*w.burst(tps, 1, r.choice([3, 8, 20]), hold=r.random() < 0.2), adv=adv(r)))
    w.phases.append(phase(*w.burst(tps, 2, 6), adv=adv(r)))
    w.release()
    if r.random() < 0.6:
        come_and_go(w, r, tps, nch)
    return w.scn(ident)


def come_and_go(w, r, tps, nch):
    """some leave, the channel goes on, and what is published while nobody is there waits for the next"""
    w.phases.append(phase(adv=1))
    w.phases.append(phase(*leave(w, r), *(w.burst(tps, 1, 6) if r.random() < 0.5 else []), adv=1))
    w.phases.append(phase(*w.burst(tps, 1, 4), adv=adv(r)))
    if r.random() < 0.7:
        w.phases.append(phase(adv=1))
        w.phases.append(phase(*leave(w, r), adv=1))
        w.phases.append(phase(*w.burst(tps, 1, 4), adv=adv(r)))
    if r.random() < 0.08:
        w.phases.append(phase(*w.flood(r.choice(tps), r.choice([120, 260])), adv=1))
    th = []
    for tp in tps:
        o = w.sub(tp, r.choice(w.chans[tp][:nch]), raw=r.random() < 0.4)
        if o:
            th.append([o])
    w.phases.append(phase(adv=1))
    w.phases.append(phase(*th, adv=1))
    w.phases.append(phase(*w.burst(tps, 1, 4), adv=1))


def g_multi(r, ident):
    """several channels and topics, read at different speeds"""
    w = W(r, r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([2, 3, 5]))
    w.slow = r.choice([0.1, 0.4])
    tps = list(w.topics)
    ops = []
    for tp in tps:
        for ch in w.chans[tp][:r.choice([2, 3, 4])]:
            for _ in range(r.choice([1, 1, 1, 2])):
                k = r.random()
                o = w.sub(tp, ch, raw=k < 0.4, init=0.4 < k < 0.5)
                if o:
                    ops.append(o)
    w.up()
    r.shuffle(ops)
    while ops:
        n = r.randint(1, len(ops))
        th = [[o] for o in ops[:n]]
        ops = ops[n:]
        if r.random() < 0.4:
            th += w.burst(tps, 1, 3)
        w.phases.append(phase(*th, adv=adv(r)))
        w.phases.append(phase(*w.burst(tps, 1, r.choice([3, 8]), hold=r.random() < 0.3), adv=adv(r)))
        if r.random() < 0.3:
            w.look()
        if r.random() < 0.25:
            w.pfault(w.burst(tps, 1, 5))
    w.release()
    w.phases.append(phase(*w.burst(tps, 1, 5), adv=1))
    if r.random() < 0.5:
        come_and_go(w, r, tps, 4)
    return w.scn(ident)


def leave(w, r):
    """threads in which one or two subscribers leave"""
    openl = [s for s in w.subs if s[5]]
    th = []
    kinds = set()
    victims = r.sample(openl, min(len(openl), r.choice([1, 1, 2])))
    for s in victims:
        if not s[5]:
            continue
        if s[4]:
            if (s[2], s[3]) in kinds:
                continue
            s[5] = False
            kinds.add((s[2], s[3]))
            th.append([{"op": "sleep", "n": r.choice([0, 0, 2, 9])}, {"op": "rclose", "x": s[0]}])
        else:
            a = s[1]
            mine = [z for z in w.subs if z[1] == a]
            if any((z[2], z[3]) in kinds for z in mine):
                continue
            for z in mine:
                z[5] = False
                kinds.add((z[2], z[3]))
            w.alive.discard(a)
            th.append([{"op": "sleep", "n": r.choice([0, 0, 2, 9])}, {"op": "stop", "x": a, "a": w.acts[a], "f": r.random() < 0.3}])
    return th


def g_stop(r, ident):
    """subscribers stop, others carry on or take over"""
    w = W(r, r.choice([1, 2, 3]), r.choice([1, 1, 2]), r.choice([3, 5, 6]))
    w.slow = r.choice([0, 0.3])
    tps = list(w.topics)
    nch = r.choice([1, 1, 2])

    def subs(n):
        l = []
        for _ in range(n):
            tp = r.choice(tps)
            o = w.sub(tp, r.choice(w.chans[tp][:nch]), raw=r.random() < 0.4)
            if o:
                l.append([o])
        return l

    w.up()
    w.phases.append(phase(*subs(r.choice([1, 2, 3, 4])), adv=adv(r)))
    for _ in range(r.choice([2, 3, 4])):
        w.phases.append(phase(*w.burst(tps, 1, r.choice([3, 8])), adv=adv(r)))
        th = leave(w, r)
        if th and r.random() < 0.35:
            # publication goes on all the time
            t = []
            for _ in range(34):
                t += [w.pub(r.choice(tps)), {"op": "sleep", "n": 5}]
            th.append(t)
        elif th and r.random() < 0.8:
            th += w.burst(tps, 1, r.choice([3, 12]))
        w.phases.append(phase(*th, adv=1))
        w.phases.append(phase(*w.burst(tps, 1, 4), adv=adv(r)))
        if r.random() < 0.25 and len(w.nodes) > 1:  # a whole node
            n = r.choice(w.nodes)
            xs = [a for a in sorted(w.alive) if w.acts[a] == n]
            if xs and not any(z[4] and z[5] for z in w.subs):
                for z in w.subs:
                    if z[1] in xs:
                        z[5] = False
                w.alive -= set(xs)
                w.phases.append(phase([{"op": "down", "a": n, "l": xs}], *w.burst(tps, 1, 6), adv=1))
        if r.random() < 0.7:
            w.phases.append(phase(adv=1))
            w.phases.append(phase(*subs(r.choice([1, 2])), adv=adv(r)))
        if r.random() < 0.3:
            w.look()
    w.phases.append(phase(*w.burst(tps, 1, 4), adv=1))
    return w.scn(ident)


def g_topic(r, ident):
    """topics are created, filled, read, closed and expire"""
    w = W(r, r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([1, 2, 3]))
    tps = list(w.topics)
    ttls = r.random() < 0.5
    if ttls:
        for t in tps:
            if r.random() < 0.7:
                w.ttl[t] = r.choice([500, 1000, 3000, 60000])
    w.up()
    mg = lambda: r.choice(["g1", "g2", "g3"] + w.nodes)
    mgr = lambda: r.choice(["g1", "g2", "g3"])
    create = lambda tp, n=None: {"op": "create", "x": w.new("o"), "a": mgr(), "b": tp, "n": w.ttl[tp] if n is None else n}
    for _ in range(r.choice([3, 5, 7])):
        tp = r.choice(tps)
        k = r.choices(["create", "again", "pub", "sub", "close", "rclose", "race", "empty", "fault", "adv", "look", "fresh"], [4, 3, 5, 3, 5, 2, 0 if ttls else 6, 2, 1.5, 6 if ttls else 0, 2, 2])[0]
        th, a = [], r.choice([1, 1, 1, 2])
        if k == "create":
            th = [[create(tp)] for _ in range(r.choice([1, 1, 2]))]
        elif k == "again":
            th = [[create(tp, r.choice([0, 200, 7000]))]]
            if ttls and tp not in getattr(w, "made", set()):
                w.phases.append(phase([create(tp)], adv=1))
        elif k == "pub":
            th = w.burst([tp], 1, 3) if r.random() > 0.03 else w.flood(tp, r.choice([120, 260]))
        elif k == "sub":
            raw = r.random() < 0.6
            o = w.sub(tp, r.choice(w.chans[tp][:2]), raw=raw)
            if o:
                th = [[o]]
        elif k == "close":
            th = [[{"op": "close", "x": w.new("k"), "a": mgr(), "b": tp}] for _ in range(1 if ttls else r.choice([1, 1, 2]))]
        elif k == "rclose":
            for s in w.subs:
                if s[4] and s[5] and s[2] == tp and r.random() < 0.7:
                    s[5] = False
                    th = [[{"op": "rclose", "x": s[0]}]]
                    break
        elif k == "race":
            th = [[{"op": "close", "x": w.new("k"), "a": mgr(), "b": tp}]]
            z = r.random()
            if z < 0.4:
                th += w.burst([tp], 1, 2)
            elif z < 0.8:
                o = w.sub(tp, r.choice(w.chans[tp][:2]), raw=r.random() < 0.6)
                if o:
                    th.append([o])
            else:
                th.append([create(tp)])
        elif k == "empty":
            o = w.pub(tp)
            o["k"] = ""
            th = [[o]]
        elif k == "fault":
            w.fault([[r.choice([lambda: w.pub(tp), lambda: {"op": "close", "x": w.new("k"), "a": mgr(), "b": tp}, lambda: create(tp)])()] for _ in range(r.choice([1, 2]))])
            if ttls:
                w.look()
        elif k == "adv":
            a = r.choice([100, 499, 500, 501, 999, 1000, 2000, 3000])
        elif k == "fresh":   # a manager that knows nothing yet
            th = [[{"op": "create", "x": w.new("o"), "a": "h%d" % w.c["o"], "b": tp, "n": w.ttl[tp]}]]
        else:
            w.look()
            continue
        if k in ("create", "pub", "sub", "close", "fresh"):
            w.made = getattr(w, "made", set()) | {tp}
        w.phases.append(phase(*th, adv=a))
        if r.random() < 0.6 or (ttls and k == "close"):  # what a close did has to be known before a topic expires
            w.look()
    return w.scn(ident)
