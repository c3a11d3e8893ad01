"""Driver for population-based and local search (spec Popul)."""
from common import *
from pybrain.optimization import *
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.structure.evolvables.topology import TopologyEvolvable
import logging
logging.disable(logging.CRITICAL)
NOVAL, NAN = 1000000001, 1000000002


class World(object):
    """contents and their origins"""

    def __init__(self):
        self.origin = {}

    def new(self, p, o):
        c = len(self.origin) + 1
        self.origin[c] = (p, o)
        return c


class Cand(Evolvable):
    def __init__(self, world, content=None):
        self.world, self.content = world, content or world.new(0, "i")

    def copy(self):
        return Cand(self.world, self.content)

    def mutate(self, **args):
        self.content = self.world.new(self.content, "m")

    def randomize(self):
        self.content = self.world.new(self.content, "r")


def topo():
    """a fresh class: memetic searches interchange the operators of the class"""
    class Topo(TopologyEvolvable):
        mask = [1]

        def __init__(self, world, content=None):
            self.world, self.content = world, content or world.new(0, "i")

        def copy(self):
            return Topo(self.world, self.content)

        def mutate(self, **args):
            self.content = self.world.new(self.content, "m")

        def topologyMutate(self):
            self.content = self.world.new(self.content, "t")

        def randomize(self):
            self.content = self.world.new(self.content, "r")

        def __len__(self):
            return 1
    return Topo


class Objective(object):
    def __init__(self, world, script, dflt):
        self.world, self.script, self.dflt, self.k, self.calls = world, script, dflt, 0, []

    def __call__(self, x):
        v = self.script[self.k] if self.k < len(self.script) else self.dflt()
        self.k += 1
        c = x.content
        p, o = self.world.origin[c]
        self.calls.append({"c": c, "p": p, "o": o, "v": v})
        return float("nan") if v == NAN else float(v)


def split(evals, n, first=False):
    """the evaluations of members: groups of n (a single one first); a group ends at an undefined value"""
    res, cur = [], []
    for e in evals:
        cur.append(e)
        if len(cur) == n or e["v"] == NAN or (first and not res):
            res.append(cur)
            cur = []
    return res + ([cur] if cur else [])


def evolvable(rng, tname, kind, c, script, nsteps):
    w = World()
    T = topo() if kind in ("mem", "imem") else Cand
    init = T(w)
    ic = init.content
    obj = Objective(w, script, lambda: rng.randint(-2, 2))
    kw = dict(minimize=c["min"], maxLearningSteps=nsteps)
    sign = 1
    if kind in ("hc", "shc"):
        cls = HillClimber if kind == "hc" else StochasticHillClimber
        kw["evaluatorIsNoisy"] = c["noisy"]
        if kind == "shc":
            kw["temperature"] = {"cold": 1e-9, "warm": 1., "hot": 1e15}[c["temp"]]
    elif kind == "rs":
        cls = rng.choice([RandomSearch, WeightGuessing])
    elif kind == "mem":
        cls = InverseMemeticSearch if c["inverse"] else MemeticSearch
        kw["localSteps"] = c["local"]
    else:
        cls = {"es": ES, "imem": InnerInverseMemeticSearch if c["inverse"] else InnerMemeticSearch}[kind]
        kw.update(mu=c["mu"], lambada=c["la"], elitism=c["elit"], evaluatorIsNoisy=c["noisy"])
        if kind == "imem":
            kw["localSteps"] = c["local"]
        sign = -1 if c["min"] else 1
    steps, box = [], [0]

    def pop(o):
        return [{"c": x.content, "v": I(sign * f)} for f, x in o.population]

    def snap(op, err=""):
        ev = obj.calls[box[0]:]
        box[0] = len(obj.calls)
        st = {"op": op, "err": err, "init": ic, "evals": ev}
        o = run["o"]
        if o is not None and kind in ("es", "imem"):
            st["groups"] = split(ev, 1 if kind == "es" else c["local"], op == "create")
            e2, v = guarded(lambda: (pop(o), o.hallOfFame[-1].content, len(o.hallOfFame)))
            st["err"] = err or e2
            st["pop"], st["hof"], st["nhof"] = v or ([], 0, 0)
            del st["evals"]
        return st
    run = {"o": None}

    def listen(best, val):
        st = snap("step")
        if kind not in ("es", "imem"):
            e2, v = guarded(lambda: I(val))
            st["err"] = st["err"] or e2
            st["best"] = {"c": best.content, "v": v}
        steps.append(st)
    kw["listener"] = listen
    err, run["o"] = guarded(lambda: cls(obj, init, **kw))
    steps.append(snap("create", err))
    if run["o"] is not None:
        err, _ = guarded(run["o"].learn)
        x = T(w)
        before = x.content
        x.mutate()
        steps.append({"op": "end", "err": err, "restored": w.origin[x.content] == (before, "m") and init.content == ic})
    return {"name": tname, "cfg": c, "steps": steps}


def ga(rng, tname, job):
    d = rng.choice([1, 2, 3, 4])
    n = rng.choice([2, 3, 4, 5, 6, 8, 10])
    top = rng.choice([50, 50, 75, 100, 40])
    if n * top // 100 < 1:
        top = 100
    elit = rng.random() < .6 and top < 100
    eprop = rng.choice([50, 25, 75])
    esize = rng.choice([-1, -1, 0, 1, 2]) if elit else -1
    mut = rng.random() < .3
    mini = rng.random() < .5
    bound = [] if rng.random() < .5 else [sorted(rng.sample(range(-6, 7), 2)) for _ in range(d)]
    c = dict(kind="ga", min=mini, n=n, top=top, elit=elit, eprop=eprop, esize=esize, mut=mut, bound=[[4096 * a, 4096 * b] for a, b in bound])
    alleles = [{} for _ in range(d)]

    def ind(x, v):
        return {"x": [alleles[k].setdefault(float(a), len(alleles[k])) for k, a in enumerate(x)], "f": FXL(x), "v": v}
    calls = []
    lim = rng.choice([1, 3, 50])

    def obj(x):
        v = rng.randint(-lim, lim)
        calls.append(ind(x, v))
        return float(v)
    start = [rng.randint(a, b) for a, b in bound] if bound else [rng.randint(-3, 3) for _ in range(d)]
    kw = dict(minimize=mini, populationSize=n, topProportion=top / 100., elitism=elit, eliteProportion=eprop / 100.,
              mutationProb=rng.choice([.3, 1.]) if mut else 0., maxLearningSteps=rng.randint(2, 5))
    if mut and bound:
        kw["mutationStdDev"] = rng.choice([.5, 20.])
    if esize != -1:
        kw["_eliteSize"] = esize
    if bound:
        kw["xBound"] = bound
    given = []
    if rng.random() < .3:
        given = [numpy.array([float(rng.randint(*b)) for b in (bound or [(-2, 2)] * d)]) for _ in range(n)]
        kw["initialPopulation"] = list(given)
    steps, box = [], [0]

    def listen(*a):
        steps.append({"op": "step", "err": "", "evals": calls[box[0]:], "init": [ind(x, 0)["x"] for x in given]})
        box[0] = len(calls)
    kw["listener"] = listen
    err, o = guarded(lambda: GA(obj, numpy.array(start, dtype=float), **kw))
    steps.append({"op": "create", "err": err})
    if o is not None:
        err, _ = guarded(o.learn)
        steps.append({"op": "end", "err": err, "restored": True})
    return {"name": tname, "cfg": c, "steps": steps}


def pso(rng, tname, job):
    from pybrain.optimization.populationbased.pso import ring, fullyConnected
    d = rng.choice([1, 2, 3])
    n = rng.choice([1, 2, 3, 5])
    isring = rng.random() < .5 and n > 1
    mini = rng.random() < .5
    mem, soc = rng.choice([(0, 200), (0, 100), (200, 0), (150, 150), (100, 0)])
    inertia = rng.choice([90, 50, 100, 0])
    bound = [sorted(rng.sample(range(-8, 9), 2)) for _ in range(d)]
    c = dict(kind="pso", min=mini, n=n, ring=isring, mem=mem, soc=soc, inertia=inertia, bound=[[512 * a, 512 * b] for a, b in bound])
    sign = -1 if mini else 1
    calls = []
    lim = rng.choice([1, 3, 100])
    t = [rng.randint(-6, 6) for _ in range(d)]
    shape = rng.random() < .4

    def obj(x):
        v = -int(sum(abs(a - b) for a, b in zip(x, t))) if shape else rng.randint(-lim, lim)
        calls.append({"x": FXL(x, 512), "v": v})
        return float(v)

    def parts(o):
        r = []
        for p in o.particles:
            fit = p.fitness
            bf = p.bestFitness
            r.append({"x": FXL(p.position, 512), "v": FXL(p.velocity, 512), "b": FXL(p.bestPosition, 512),
                      "bv": NOVAL if abs(bf) == float("inf") else I(sign * bf), "fv": NOVAL if fit is None else I(sign * fit)})
        return r
    kw = dict(minimize=mini, size=n, boundaries=bound, memory=mem / 100., sociality=soc / 100., inertia=inertia / 100., maxLearningSteps=rng.randint(2, 4),
              neighbourfunction=ring if isring else rng.choice([None, fullyConnected]))
    steps, box, run = [], [0], {}

    def listen(*a):
        e, v = guarded(lambda: parts(run["o"]))
        steps.append({"op": "step", "err": e, "evals": calls[box[0]:], "parts": v or []})
        box[0] = len(calls)
    kw["listener"] = listen
    err, run["o"] = guarded(lambda: ParticleSwarmOptimizer(obj, numpy.zeros(d), **kw))
    e2, v = guarded(lambda: parts(run["o"]))
    steps.append({"op": "create", "err": err or e2, "parts": v or []})
    if run["o"] is not None:
        err, _ = guarded(run["o"].learn)
        steps.append({"op": "end", "err": err, "restored": True})
    return {"name": tname, "cfg": c, "steps": steps}


BASE = dict(noisy=False, temp="cold", local=1, inverse=False, mu=1, la=1, elit=False)


def random_mode(job):
    rng, traces = job.rng, []
    for k in range(job.args["count"]):
        kind = ["hc", "shc", "rs", "mem", "es", "imem", "ga", "ga", "pso", "pso"][k % 10]
        name = "random-%s-%d" % (kind, k)
        if kind == "ga":
            traces.append(ga(rng, name, job))
            continue
        if kind == "pso":
            traces.append(pso(rng, name, job))
            continue
        c = dict(BASE, kind=kind, min=rng.random() < .5)
        if kind in ("hc", "shc", "es", "imem"):
            c["noisy"] = rng.random() < .3
        if kind == "shc":
            c["temp"] = rng.choice(["cold", "warm", "hot"])
        if kind in ("mem", "imem"):
            c["inverse"] = rng.random() < .5
            c["local"] = rng.choice([2, 3, 4])
        if kind in ("es", "imem"):
            c["mu"] = rng.choice([1, 2, 3])
            c["la"] = c["mu"] * rng.choice([1, 2, 3])
            c["elit"] = rng.random() < .5
        lim = rng.choice([1, 3, 100])
        script = [rng.randint(-lim, lim) for _ in range(200)]
        if kind in ("mem", "imem") and rng.random() < .3:
            pop = 1 if kind == "mem" else 1 + c["local"] * (c["la"] + (c["mu"] if c["elit"] else 0) - 1)
            script[rng.randint(pop, pop + 20)] = NAN
        traces.append(evolvable(rng, name, kind, c, script, rng.randint(1, 6)))
    job.write("random", traces)


def replay(job):
    rng, traces = job.rng, []
    for k, b in enumerate(job.behaviours):
        c = dict(BASE)
        c.update((a, v) for a, v in b["cfg"].items() if a != "init")
        n = 1 if c["kind"] == "hc" else c["la"] + (c["mu"] if c["elit"] else 0)
        script = [0] * n
        for op in b["ops"]:
            script += op["v"]
        traces.append(evolvable(rng, "replay-%s-%d" % (c["kind"], k), c["kind"], c, script, len(b["ops"])))
    job.write("replay", traces)


if __name__ == "__main__":
    main({"random": random_mode, "replay": replay})
