"""Driver for black-box optimizers (spec Optim)."""
from common import *
from pybrain.optimization import *
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.rl.environments.functions.function import FunctionEnvironment
import logging
logging.disable(logging.CRITICAL)
NOVAL, NAN = 1000000001, 1000000002
VES = VanillaGradientEvolutionStrategies


def canon(x):
    x = x.params if isinstance(x, ParameterContainer) else x
    return (numpy.array(x, dtype=float) + 0.).tobytes()


class Ids(object):
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        k = canon(x)
        return self.d.setdefault(k, len(self.d) + 1)

    def get(self, x):
        return self.d.get(canon(x), -1)


class Objective(object):
    """returns scripted integer values, then those of a simple landscape; records what it received"""

    def __init__(self, ids, script, land, sign=1):
        self.ids, self.script, self.land, self.sign, self.k, self.calls = ids, script, land, sign, 0, []

    def __call__(self, x):
        i = self.ids(x)
        p = numpy.array(x.params if isinstance(x, ParameterContainer) else x, dtype=float)
        if self.k < len(self.script):
            v = self.script[self.k]
        else:
            v = self.land(p)
        self.k += 1
        if v == NAN:
            self.calls.append([i, NAN])
            return float("nan") if self.k % 2 else float("inf")
        v = self.sign * v
        self.calls.append([i, v])
        return float(v)


class Ev(FitnessEvaluator):
    def __init__(self, f, tomin, desired):
        self.fun, self.toBeMinimized, self.desiredValue = f, tomin, desired

    def f(self, x):
        return self.fun(x)


class Fun(FunctionEnvironment):
    def __init__(self, f, tomin, desired, dim):
        self.fun = f
        FunctionEnvironment.__init__(self, dim)
        self.toBeMinimized, self.desiredValue = tomin, desired

    def f(self, x):
        return self.fun(x)


SIMPLE = dict(init=0, batch=1, bmax=1, most=1, conv=False, drift=False, slack=0)
cma = lambda d: 4 + int(numpy.floor(3 * numpy.log(d)))


def table(rng, name, d, desired):
    """the class, its options, and what the options mean for the record"""
    k, p = {}, dict(SIMPLE)
    if name in ("HillClimber", "StochasticHillClimber"):
        p.update(init=1)
        p["drift"] = name[0] == "S"
        if rng.random() < .3:
            k["evaluatorIsNoisy"] = True
            p.update(batch=2, bmax=2, drift=True)
        if name[0] == "S":
            k["temperature"] = rng.choice([.1, 1., 10.])
    elif name in ("RandomSearch", "WeightGuessing", "WeightMaskGuessing"):
        p.update(init=1)
    elif name in ("MemeticSearch", "InverseMemeticSearch"):
        n = rng.choice([2, 3, 4])
        k["localSteps"] = n
        p.update(init=1, batch=-1 if desired else n, bmax=n, most=n)
    elif name in ("InnerMemeticSearch", "InnerInverseMemeticSearch", "ES"):
        mu = rng.choice([1, 2, 3])
        la = mu * rng.choice([1, 2])
        el = rng.random() < .5
        noisy = rng.random() < .25
        k.update(mu=mu, lambada=la, elitism=el, evaluatorIsNoisy=noisy)
        if name[0] == "I":
            n = rng.choice([2, 3])
            k["localSteps"] = n
        else:
            n = 1
        pop = la + (mu if el else 0)
        b = (la + (mu if noisy else 0)) * n
        p.update(init=-1 if desired and n > 1 else 1 + (pop - 1) * n, batch=-1 if desired and n > 1 else b, bmax=b, most=b)
    elif name == "GA":
        n = rng.choice([2, 3, 4, 5])
        k.update(populationSize=n, topProportion=rng.choice([.5, .6, 1.]), elitism=rng.random() < .5, mutationProb=rng.choice([0., .5]))
        if k["topProportion"] == 1.:
            k["elitism"] = False
        p.update(batch=n, bmax=n)
    elif name == "ParticleSwarmOptimizer":
        n = rng.choice([1, 2, 4])
        k.update(size=n)
        p.update(batch=n, bmax=n)
    elif name == "FiniteDifferences":
        n = rng.choice([1, 2, 4])
        k.update(batchSize=n)
        p.update(batch=n, bmax=n)
    elif name in ("PGPE", "SimpleSPSA"):
        p.update(batch=2, bmax=2)
        if name[0] == "P":
            k["batchSize"] = 2
            k["exploration"] = rng.choice(["local", "global"])
    elif name == "CMAES":
        p.update(batch=cma(d), bmax=cma(d), conv=True)
    elif name in ("XNES", "SNES"):
        n = cma(d)
        if rng.random() < .5:
            n = rng.choice([3, 6])
            k["batchSize"] = n
        p.update(batch=n, bmax=n, conv=name[0] == "S")
        if name[0] == "X" and rng.random() < .5:
            k["importanceMixing"] = True
            n = k.setdefault("batchSize", 10 * d)
            p.update(batch=-1, bmax=n, most=n)
    elif name in ("VanillaGradientEvolutionStrategies", "ExactNES", "OriginalNES"):
        n = rng.choice([8, 12])
        mix = rng.random() < .5
        k.update(batchSize=n, importanceMixing=mix, elitism=rng.random() < .2)
        p.update(batch=-1 if mix else n, bmax=n, most=n, conv=True)
    elif name == "FEM":
        k.update(batchSize=1, windowSize=rng.choice([3, 6]), elitism=rng.random() < .3, sampleElitism=rng.random() < .3)
        p.update(init=1)
    elif name == "NelderMead":
        p.update(batch=-1, most=10 ** 6, conv=True, slack=d + 4)
    return k, p


NAMES = ["HillClimber", "StochasticHillClimber", "RandomSearch", "WeightGuessing", "WeightMaskGuessing", "MemeticSearch", "InverseMemeticSearch",
         "InnerMemeticSearch", "InnerInverseMemeticSearch", "ES", "GA", "ParticleSwarmOptimizer", "FiniteDifferences", "PGPE", "SimpleSPSA",
         "CMAES", "XNES", "SNES", "VanillaGradientEvolutionStrategies", "ExactNES", "OriginalNES", "FEM", "NelderMead"]
MASKED = ("WeightMaskGuessing", "MemeticSearch", "InverseMemeticSearch", "InnerMemeticSearch", "InnerInverseMemeticSearch")
# they draw random numbers already when they are constructed, and wrapping an array draws some, too
ATRANDOM = ("ES", "GA", "ParticleSwarmOptimizer", "FEM", "VanillaGradientEvolutionStrategies", "ExactNES", "OriginalNES")
DELICATE = ("VanillaGradientEvolutionStrategies", "ExactNES", "OriginalNES", "FEM", "XNES", "CMAES")


def landscape(rng, d):
    c = [rng.randint(-2, 2) for _ in range(d)]
    q = rng.choice([1, 4, 16])
    s = rng.choice([1, -1, -1])

    def f(p):
        t = numpy.nan_to_num(numpy.clip(p[:d], -1e3, 1e3))
        return int(s * sum(abs(round(float(q * (a - b)))) for a, b in zip(t, c)))
    return f


def pairs(obj, since):
    return obj.calls[since:]


class Run(object):
    def __init__(self, name, cls, kw, obj, init, seed, how="kw", ev=None, minimize=None, desired=None):
        self.obj, self.marks, self.err, self.results = obj, [], "", []
        random.seed(seed)
        numpy.random.seed(seed)
        self.init = init
        self.before = canon(init)
        kw = dict(kw)
        kw["listener"] = lambda *a: self.marks.append(len(obj.calls))

        def create():
            if how == "set":
                stores = dict((k, v) for k, v in kw.items() if k.startswith("storeAll"))
                o = cls(**stores)
                for k, v in kw.items():
                    setattr(o, k, v)
                o.setEvaluator(ev or obj, init)
                return o
            if how == "late":      # the evaluator is given later
                o = cls(**kw)
                o.setEvaluator(ev or obj, init)
                return o
            return cls(ev or obj, init, **kw)
        self.err, self.opt = guarded(create)
        random.seed(seed + 1)
        numpy.random.seed(seed + 1)

    def obs(self, ids, best=None):
        o = self.opt
        if o is None:
            return {"ne": -1, "ns": -1, "best": [-1, -1], "logV": [], "logI": [], "same": canon(self.init) == self.before, "kept": True}
        if best is None:
            best = o._bestFound()
        b, v = best
        r = {"ne": I(o.numEvaluations), "ns": I(o.numLearningSteps), "best": [ids.get(b), NOVAL if v is None else I(v)],
             "logV": [I(x) for x in getattr(o, "_allEvaluations", [])], "logI": [ids.get(x) for x in getattr(o, "_allEvaluated", [])],
             "same": canon(self.init) == self.before, "kept": all(canon(x) == c for x, c in self.results)}
        return r

    def learn(self, add, ids, steps):
        start = len(self.obj.calls)
        del self.marks[:]
        steps.append({"op": "learn", "add": -1 if add is None else add})
        err, best = guarded(lambda: self.opt.learn(add) if add is not None else self.opt.learn())
        for m in self.marks:
            steps.append({"op": "step", "evals": self.obj.calls[start:m]})
            start = m
        e2, ob = guarded(lambda: self.obs(ids, best))
        if best is not None:
            self.results.append((best[0], canon(best[0])))
        steps.append({"op": "end", "evals": self.obj.calls[start:], "err": err or e2,
                      "obs": ob or {"ne": -1, "ns": -1, "best": [-1, -1], "logV": [], "logI": [], "same": True, "kept": True}})
        return best


def episode(rng, name, d, kw, p, mini, script, land, maxEv, maxSt, desired, calls, seed, twin, wrap, tname):
    ids = Ids()
    cls = globals()[name]
    logi = rng.random() < .5
    logv = logi and rng.random() < .8 or rng.random() < .4
    # an optimizer that keeps its log needs it
    if name in ("XNES", "SNES"):
        logi = logv = True
    kw = dict(kw)
    kw.update(maxEvaluations=maxEv, maxLearningSteps=maxSt)
    if logi:
        kw["storeAllEvaluated"] = True
    if logv:
        kw["storeAllEvaluations"] = True
    x = [rng.randint(-8, 8) / 4. for _ in range(d)]

    def start(kind):
        if kind == "pc":
            c = ParameterContainer(d)
            c._setParameters(numpy.array(x))
            return c
        return list(x) if kind == "list" else numpy.array(x)
    k1 = dict(kw)
    if mini or rng.random() < .5:
        k1["minimize"] = mini
    if desired is not None:
        k1["desiredEvaluation"] = float(desired)
    run = Run(name, cls, k1, Objective(ids, script, land), start(wrap), seed)
    steps = []
    e2, ob = guarded(lambda: run.obs(ids))
    cfg = dict(p)
    cfg.update(min=bool(mini), maxEv=maxEv, maxSt=-1 if maxSt is None else maxSt, desired=NOVAL if desired is None else desired,
               logv=bool(logv), logi=bool(logi), opt=name, kw=repr(sorted(kw.items())))
    steps.append({"op": "create", "evals": list(run.obj.calls), "err": run.err or e2,
                  "obs": ob or {"ne": -1, "ns": -1, "best": [-1, -1], "logV": [], "logI": [], "same": True, "kept": True}})
    if run.opt is not None:
        for a in calls:
            run.learn(a, ids, steps)
        if twin in ("pc", "arr", "list") and name in MASKED + ATRANDOM:
            twin = "neg"
        if twin:
            k2, how, neg, ev = dict(kw), "kw", twin == "neg", None
            sign = -1 if neg else 1
            obj = Objective(ids, script, land, sign)
            tm = (not mini) if neg else mini
            des = None if desired is None else float(sign * desired)
            w2 = wrap
            if twin in ("env", "fun"):
                ev = Ev(obj, tm, des) if twin == "env" else Fun(obj, tm, des, d)
            else:
                k2["minimize"] = tm
                if des is not None:
                    k2["desiredEvaluation"] = des
            if twin in ("pc", "list", "arr"):
                w2 = twin
            if twin in ("set", "late"):
                how = twin
            t = Run(name, cls, k2, obj, start(w2), seed, how, ev)
            err, best = t.err, None
            if t.opt is not None:
                for a in calls:
                    err, best = guarded(lambda: t.opt.learn(a) if a is not None else t.opt.learn())
                    if err:
                        break
            b = [-1, NOVAL] if not best or best[1] is None else [ids.get(best[0]), guarded(lambda: I(best[1]), -7)[1]]
            steps.append({"op": "twin", "kind": twin, "neg": neg, "evals": obj.calls, "best": b, "err": err})
    return {"name": tname, "cfg": cfg, "steps": steps}


def random_mode(job):
    rng, traces = job.rng, []
    for k in range(job.args["count"]):
        name = NAMES[k % len(NAMES)]
        d = rng.choice([2, 3, 4]) if name != "FEM" else rng.choice([2, 3])
        desired = rng.choice([None, None, -1, 0, 2])
        kw, p = table(rng, name, d, desired is not None)
        mini = rng.random() < .5
        kind = rng.choice(["rand", "rand", "ties", "wide", "func", "mono"])
        n = rng.randint(3, 12) * max(p["bmax"], 1)
        if kind in ("func",) or name in DELICATE and rng.random() < .6:
            script = []
        elif kind == "mono":
            s = rng.choice([1, -1])
            script = [s * i for i in range(n)]
        else:
            lim = {"rand": 3, "ties": 1, "wide": 1000}[kind]
            script = [rng.randint(-lim, lim) for _ in range(n)]
        init = max(p["init"], 0)
        if name not in MASKED and name != "NelderMead" and rng.random() < .2 and len(script) > init + 1:
            script[rng.randint(init, len(script) - 1)] = NAN
        if name == "NelderMead":
            maxEv = rng.choice([5, 10, 30, 60])
        else:
            maxEv = rng.choice([1000, p["bmax"] * rng.randint(1, 8) + rng.randint(0, 3)])
        maxSt = rng.choice([None, 0, 1, 2, 3, 5, 8]) if maxEv < 1000 else rng.choice([1, 2, 4, 6])
        calls = [rng.choice([None, None, 0, 1, 2, 3]) for _ in range(rng.randint(1, 3))]
        if maxEv >= 1000 and maxSt is None:
            calls[0] = 3
        twin = rng.choice(["neg", "neg", "pc", "arr", "env", "fun", "set", "late", "list", None])
        wrap = rng.choice(["arr", "arr", "list", "pc"])
        if twin == "fun" and name == "GA":
            twin = "env"
        traces.append(episode(rng, name, d, kw, p, mini, script, landscape(rng, d), maxEv, maxSt, desired, calls,
                              rng.randint(0, 10 ** 6), twin, wrap, "random-%s-%d" % (name, k)))
    job.write("random", traces)


def replay(job):
    """behaviours of the specification, played by the optimizers whose steps have the given size"""
    rng, traces = job.rng, []
    for k, b in enumerate(job.behaviours):
        c = b["cfg"]
        n = c["batch"]
        p = dict(SIMPLE, batch=n, bmax=n, most=n)
        if c["init"] == 1:
            if n == 1:
                name, kw = rng.choice([("HillClimber", {}), ("RandomSearch", {}), ("WeightMaskGuessing", {}), ("FEM", {"batchSize": 1, "windowSize": 3}),
                                       ("ES", {"mu": 1, "lambada": 1})])
                p["init"] = 1
            else:
                name, kw = "MemeticSearch", {"localSteps": 2}
                p.update(init=1, batch=-1 if c["desired"] != NOVAL else 2)
        elif n == 1:
            name, kw = rng.choice([("ParticleSwarmOptimizer", {"size": 1}), ("FiniteDifferences", {"batchSize": 1})])
        else:
            name, kw = rng.choice([("ParticleSwarmOptimizer", {"size": 2}), ("FiniteDifferences", {"batchSize": 2}), ("SimpleSPSA", {}),
                                   ("GA", {"populationSize": 2, "topProportion": .5}), ("SNES", {"batchSize": 2})])
            if name == "SNES":
                p["conv"] = True
        script = list(c["initv"])
        calls = []
        for op in b["ops"]:
            if op["op"] == "learn":
                calls.append(None if op["add"] == -1 else op["add"])
            elif op["op"] == "step":
                v = list(op["vals"])
                script += v[:v.index(NAN) + 1] if NAN in v else v
        if name in MASKED:
            script = [0 if v == NAN else v for v in script]
        traces.append(episode(rng, name, 2, kw, p, c["min"], script, lambda x: 0, c["maxEv"], None if c["maxSt"] == -1 else c["maxSt"],
                              None if c["desired"] == NOVAL else c["desired"], calls, rng.randint(0, 10 ** 6),
                              rng.choice(["neg", "pc", "set", None]), rng.choice(["arr", "pc"]), "replay-%s-%d" % (name, k)))
    job.write("replay", traces)


if __name__ == "__main__":
    main({"random": random_mode, "replay": replay})
