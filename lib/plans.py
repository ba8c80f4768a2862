"""Which executions decide which property."""
import gen_actor
import gen_cluster as gc
import gen_pubsub as gp
import gen_small as gs
import vf
from check import Part

QUICK = lambda: vf.TIER != "thorough"


class Family:
    def __init__(self, name, module, perturb=None, record=None, limit=12, shards=vf.NCPU):
        self.name, self.module, self.perturb, self.record, self.limit, self.shards = name, module, perturb, record, limit, shards

    def part(self, scns, variants=1):
        return Part(self.name, self.module, scns, perturb=self.perturb, variants=variants, record=self.record, limit=self.limit, shards=self.shards)


FAMILIES = {
    "actor": Family("actor", "ActorTrace", gen_actor.perturb),
    "future": Family("future", "FutureTrace", gen_actor.perturb),
    "chain": Family("chain", "ChainTrace", gen_actor.perturb),
    "fifo": Family("fifo", "FifoTrace", gen_actor.perturb),
    "version": Family("version", "VersionTrace", gen_actor.perturb),
    "token": Family("token", "TokenTrace", gen_actor.perturb),
    "builder": Family("builder", "BuilderTrace", gen_actor.perturb),
    "tick": Family("tick", "TickTrace", gs.perturb_short),
    "report": Family("report", "ReporterTrace", gen_actor.perturb),
    "mutex": Family("mutex", "MutexTrace", gs.perturb_add),
    "rpc": Family("rpc", "RpcTrace", gs.perturb_add),
    "cluster": Family("cluster", "ClusterTrace", gs.perturb_add),
    "pubsub": Family("pubsub", "PubSubTrace", gs.perturb_add),
    "fields": Family("fields", "FieldsTrace"),
}


class Plan:
    """a list of (family, generator, profile, number of scenarios, perturbed runs per scenario)"""
    level = "model_checking"

    def __init__(self, *rows, assumptions=(), models=()):
        self.rows, self.assumptions, self.models = rows, list(assumptions), list(models)

    def parts(self, tier, seed):
        fams = {}
        for fam, gen, prof, n, var in self.rows:
            if tier == "thorough":
                n *= 12
            fams.setdefault((fam, var), []).extend(gen(prof, seed, n))
        for (fam, var), scns in fams.items():
            yield FAMILIES[fam].part(scns, variants=var)

    def extra(self, res):
        return {}


BASE = ["the recorded order of two events of different goroutines is the order in which they took the recorder's lock",
        "virtual time (testing/synctest); redis is miniredis"]


def actor(*rows, fifo=0, extra=(), models=()):
    rs = [("actor", gen_actor.gen, p, n, v) for p, n, v in rows]
    if fifo:
        rs.append(("fifo", gs.fifo, "mpsc", fifo, 3))
    return Plan(*rs, *extra, assumptions=BASE, models=models)


# design models, checked exhaustively: (module, quick configuration, thorough configuration)
MPSC = ("design/Mpsc", "design/Mpsc.cfg", "design/MpscBig.cfg")
STREAM = ("design/Stream", "design/StreamSmall.cfg", "design/Stream.cfg")
REGISTRY = ("design/Registry", "design/RegistrySmall.cfg", "design/Registry.cfg")
LOCK = ("design/Lock", "design/Lock.cfg", "design/LockBig.cfg")
# the behaviour specifications themselves, closed by a bounded environment
AMC = ("mc/ActorMC", "mc/ActorMC.cfg", "mc/ActorMCbig.cfg")
AMCRE = ("mc/ActorMC", "mc/ActorMCre.cfg", "mc/ActorMCrebig.cfg")
AMCTM = ("mc/ActorMC", "mc/ActorMCtm.cfg", "mc/ActorMCtm.cfg")
FUMC = ("mc/FutureMC", "mc/FutureMC.cfg", "mc/FutureMCbig.cfg")
FIMC = ("mc/FifoMC", "mc/FifoMC.cfg", "mc/FifoMCbig.cfg")
MUMC = ("mc/MutexMC", "mc/MutexMC.cfg", "mc/MutexMC.cfg")


PLANS = {
    "A01": actor(("pile", 16, 1), ("serial", 400, 2), ("base", 300, 2), ("stoptm", 150, 2), ("burst", 60, 1), models=(MPSC,)),
    "A02": actor(("queue", 700, 3), ("burst", 60, 1), ("base", 200, 2), ("stop", 200, 2), fifo=300, models=(MPSC,)),
    "A03": actor(("fail", 500, 2), ("failtm", 250, 2), ("base", 200, 1), models=(AMC,)),
    "A04": actor(("stop", 600, 3), ("stoptm", 300, 2), ("stopre", 150, 2), ("drainre", 120, 4), ("stopone", 200, 5), ("burst", 60, 1), models=(MPSC,)),
    "A05": actor(("wide", 24, 1), ("tree", 700, 2), ("base", 300, 2), ("fail", 200, 1), models=(AMC,)),
    "A06": actor(("bound", 800, 2), ("tree", 300, 1), ("base", 200, 1), models=(AMC,)),
    "A07": actor(("cycle", 900, 2), ("base", 200, 1), models=(AMC,)),
    "A08": actor(("re", 900, 3), ("base", 200, 1), ("drainre", 60, 2), extra=[("cluster", gc.routing, "route", 80, 1)], models=(AMCRE,)),
    "A09": Plan(("future", gs.future, "base", 600, 3), assumptions=BASE, models=(FUMC,)),
    "A11": Plan(("chain", gs.chain, "base", 400, 2), ("actor", gen_actor.gen, "events", 200, 1), assumptions=BASE),
    "Q01": Plan(("fifo", gs.fifo, "unbounded", 500, 3), assumptions=BASE, models=(FIMC,)),
    "V01": Plan(("version", gs.version, "base", 500, 2), assumptions=BASE),
    "C01": Plan(("token", gs.token, "base", 500, 1), assumptions=BASE[:1] + ["tokens are altered in the ways the specification lists (Made); that the signature cannot be forged otherwise is left to HMAC"]),
    "B01": Plan(("builder", gs.builder, "base", 300, 2), assumptions=BASE),
    "K01": Plan(("tick", gs.tick, "base", 320, 2), assumptions=BASE),
    "T01": Plan(("report", gs.report, "base", 300, 2), assumptions=BASE),
    "D01": Plan(("mutex", gs.mutex, "base", 400, 2), assumptions=BASE, models=(LOCK, MUMC)),
    "G01": Plan(("rpc", gs.rpc, "base", 300, 2), assumptions=BASE),
    "R01": Plan(("cluster", gc.registry, "reg", 300, 2), assumptions=BASE, models=(REGISTRY,)),
    "R02": Plan(("cluster", gc.registry, "weight", 300, 2), ("cluster", gc.registry, "reg", 100, 1), assumptions=BASE, models=(REGISTRY,)),
    "R03": Plan(("cluster", gc.placement, "base", 400, 0), ("cluster", gc.registry, "reg", 100, 0), assumptions=BASE),
    "R04": Plan(("cluster", gc.registry, "rules", 400, 3), assumptions=BASE, models=(REGISTRY,)),
    "R05": Plan(("cluster", gc.registry, "exit", 300, 2), assumptions=BASE, models=(REGISTRY,)),
    "R06": Plan(("cluster", gc.stale, "base", 400, 2), assumptions=BASE, models=(REGISTRY,)),
    "N01": Plan(("cluster", gc.routing, "route", 250, 2), assumptions=BASE),
    "N02": Plan(("cluster", gc.routing, "sym", 250, 2), assumptions=BASE),
    "N03": Plan(("cluster", gc.routing, "send", 250, 2), assumptions=BASE),
    "N04": Plan(("cluster", gc.routing, "fail", 250, 2), assumptions=BASE),
    "X01": Plan(("cluster", gc.routing, "ctx", 300, 2), assumptions=BASE),
    "S01": Plan(("pubsub", gp.pubsub, "single", 300, 2), assumptions=BASE, models=(STREAM,)),
    "S02": Plan(("pubsub", gp.pubsub, "share", 300, 2), assumptions=BASE, models=(STREAM,)),
    "S03": Plan(("pubsub", gp.pubsub, "multi", 300, 2), assumptions=BASE, models=(STREAM,)),
    "S04": Plan(("pubsub", gp.pubsub, "topic", 400, 2), assumptions=BASE, models=(STREAM,)),
    "S05": Plan(("pubsub", gp.pubsub, "stop", 300, 2), assumptions=BASE, models=(STREAM,)),
    "M01": Plan(("fields", gs.fields, "base", 1500, 0), assumptions=BASE),
    "A10": actor(("timer", 450, 2), ("stoptm", 150, 2), ("failtm", 100, 1), models=(AMCTM,)),
}


def start_models(prop):
    """model checking of the design runs beside the build"""
    from concurrent.futures import ThreadPoolExecutor
    ms = PLANS[prop].models
    ex = ThreadPoolExecutor(max_workers=max(1, len(ms)))
    futs = [ex.submit(one_model, m) for m in ms]
    return lambda: [f.result() for f in futs]


def one_model(m):
    module, cfg = m[0], m[2] if vf.TIER == "thorough" else m[1]
    g, d = vf.model_check(module, cfg, workers=2 if vf.TIER != "thorough" else 4, timeout=300 if vf.TIER != "thorough" else 3000)
    return {"module": module, "config": cfg, "generated": g, "distinct": d}
