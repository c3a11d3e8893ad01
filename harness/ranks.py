"""Driver for ordering candidates (spec Ranks)."""
from common import *
from numpy import array, log, exp, inf
import numpy as np
from pybrain.tools import rankingfunctions as RF, functions
from pybrain.tools.gridsearch import GridSearch2D, GridSearchDOE
from pybrain.supervised.evolino.gpopulation import SimplePopulation
from pybrain.supervised.evolino.population import EvolinoPopulation
from pybrain.supervised.evolino.individual import EvolinoSubIndividual
from pybrain.supervised.evolino.filter import EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation, EvolinoSubMutation
from pybrain.supervised.evolino.gfilter import Randomization
from pybrain.supervised.knn.lsh.minhash import MinHash, jacardCoefficient
from pybrain.supervised.knn.lsh.nearoptimal import MultiDimHash

NONE = -1000000


def trace(name, kind, steps, **cfg):
    c = {"kind": kind}
    c.update(cfg)
    return {"name": name, "cfg": c, "steps": steps}


def step(op, b, f):
    b["op"] = op
    b["err"], _ = guarded(lambda: b.update(f()))
    return b


# ------------------------------------------------------------- ranking functions
def fitnesses(rng, n):
    w = rng.choice([1, 2, 5, 1000])
    R = [rng.randint(-w, w) for _ in range(n)]
    if rng.random() < .3:
        R = list(range(n)); rng.shuffle(R)
    return R


def ranking(rng):
    n = rng.choice([2, 2, 3, 4, 5, 5, 7, 10, 16])
    R = fitnesses(rng, n)
    kind = rng.choice(["ranks", "ranks", "base", "gini", "exp", "hansen", "top", "toplin", "bilinear", "tournament", "tournament", "normal", "functions"])
    if kind == "normal" and len(set(R)) == 1:
        kind = "base"
    p = {"lin": rng.choice([0, 0, 1024, 2048]), "m": rng.choice([1, 2, 3, 4]), "t": rng.choice([1, 2, 5]), "f": rng.choice([8, 13, 16, 32, 48, 64]), "d": 64, "b": rng.choice([0, 1, 20])}
    mk = rng.choice([list, lambda x: array(x), lambda x: array(x, float)])
    x = mk(list(R))

    def same():
        return [I(v) for v in x] == R
    if kind == "tournament":
        t = rng.choice([1, 2, 2, 3, 4])
        if rng.random() < .3:
            R, t = fitnesses(rng, rng.randint(2, 4)), 60
            x = mk(list(R))
        b = {"R": R, "w": [], "t": t}
        return step("tournament", b, lambda: {"w": IL(RF.TournamentSelection(**({} if t == 2 and rng.random() < .5 else {"tournamentSize": t}))(x))})
    if kind == "normal":
        R = [v % 7 for v in R]
        if len(set(R)) == 1:
            R[0] += 1
        x = mk(list(R))
        b = {"R": R, "w": []}
        return step("normal", b, lambda: {"w": FXL(RF.normalizedFitness(x if not isinstance(x, list) else array(x)))})
    dflt = rng.random() < .2
    if dflt:
        p.update(lin=0, m=19, t=10, f=1 if kind == "top" else 2, d=10, b=20)
    b = {"R": R, "w": [], "kind": "ranks" if kind == "functions" else kind, "p": p, "tol": 40 if dflt else 8, "intact": False}

    def f():
        if kind == "ranks":
            w = FXL(RF.rankedFitness(x))
        elif kind == "functions":
            w = FXL(functions.ranking(x))
        elif kind == "base":
            w = FXL(RF.RankingFunction()(x))
        elif dflt and kind != "functions":
            w = {"gini": RF.SmoothGiniRanking, "exp": RF.ExponentialRanking, "hansen": RF.HansenRanking, "top": RF.TopSelection, "toplin": RF.TopLinearRanking, "bilinear": RF.BilinearRanking}[kind]()(x)
            w = FXL(log(w) if kind == "exp" else exp(w) if kind == "hansen" else w)
        elif kind == "gini":
            w = FXL(RF.SmoothGiniRanking(gini=2. / (p["m"] + 1), linearComponent=p["lin"] / 4096.)(x))
        elif kind == "exp":
            w = FXL(log(RF.ExponentialRanking(temperature=float(p["t"]))(x)))
        elif kind == "hansen":
            w = FXL(exp(RF.HansenRanking()(x)))
        elif kind == "top":
            w = FXL(RF.TopSelection(topFraction=p["f"] / 64.)(x))
        elif kind == "toplin":
            q = RF.TopLinearRanking(topFraction=p["f"] / 64.)
            if rng.random() < .3:
                q = RF.TopLinearRanking()
                q.setParameter(p["f"] / 64.)
            w = FXL(q(x))
        else:
            w = FXL(RF.BilinearRanking(**({} if p["b"] == 20 else {"bilinearFactor": p["b"]}))(x))
        return {"w": w, "intact": same()}
    return step("rank", b, f)


# ------------------------------------------------------------------- grid search
def grid(rng):
    n = [rng.randint(1, 6), rng.randint(1, 6)]
    if rng.random() < .3:
        n[1] = n[0]
    lo = [rng.randint(-8, 8), rng.randint(-8, 8)]
    hi = [l + rng.randint(1, 12) for l in lo]
    calls, perf = [], []
    w = rng.choice([1, 3, 50])
    steps = []
    sign = rng.choice([1, 1, -1])

    class G(GridSearch2D):
        def _validate(self, params):
            calls.append(FXL(params)); perf.append(sign * rng.randint(0, w))
            return rng.choice([float, int])(perf[-1])
    b = {"n": n, "lo": [4096 * v for v in lo], "hi": [4096 * v for v in hi], "calls": [], "perf": [], "res": [], "table": []}

    def f():
        mk = rng.choice([tuple, list])
        g = G(mk(lo), mk(hi), n[0] if n[0] == n[1] and rng.random() < .5 else mk(n), **rng.choice([{}, {"verbosity": 1}]))
        r = FXL(g.search())
        return {"calls": calls, "perf": perf, "res": r, "table": [[FXL(k), I(v)] for k, v in g.getPerformances().items()]}
    return step("grid", b, f)


def doe(rng):
    levels = rng.randint(1, 5)
    lo = [rng.randint(-8, 8), rng.randint(-8, 8)]
    hi = [l + rng.choice([1, 2, 3, 8]) for l in lo]
    calls, perf = [], []
    w = rng.choice([3, 50])
    goal = [rng.uniform(lo[d] - 1, hi[d] + 1) for d in (0, 1)]
    style = rng.randrange(2)

    class G(GridSearchDOE):
        def _validate(self, params):
            calls.append(IL([SC(v, 12) for v in params]))
            perf.append(rng.randint(-w, w) if style else int(-100 * sum((goal[d] - params[d]) ** 2 for d in (0, 1))))
            return float(perf[-1])
    b = {"lo": [4096 * v for v in lo], "hi": [4096 * v for v in hi], "levels": levels, "calls": [], "perf": [], "res": []}
    return step("doe", b, lambda: {"res": IL([SC(v, 12) for v in G(lo, hi, **({} if levels == 5 else {"n_iterations": levels})).search()]), "calls": calls, "perf": perf})


# ------------------------------------------------------------------- populations
class Ids(object):
    def __init__(self):
        self.ids = {}

    def __call__(self, x):
        return self.ids.setdefault(id(x), (len(self.ids) + 1, x))[0]


def fit(v):
    return NONE if v == -inf else I(v)


def genome(x):
    """A genome of numbers in 4096ths; other objects have none."""
    g = x.getGenome() if hasattr(x, "getGenome") else []
    out = []

    def flat(q):
        for v in q:
            flat(v) if isinstance(v, (list, tuple, np.ndarray)) else out.append(FX(v))
    flat(g)
    return out


def obs(ids, sps):
    r = []
    for sp in sps:
        m = sp.getFitnessMap()
        s = sorted(sp.getIndividuals(), key=ids)
        if any(sp.getIndividualFitness(i) != m[i] for i in s):
            raise Malformed("two fitness values")
        r.append({"fit": sorted([[ids(i), fit(v)] for i, v in m.items()]), "ids": [ids(i) for i in s], "n": I(sp.getIndividualsN()), "gen": [[ids(i), genome(i)] for i in s]})
    return r


class Obj(object):
    def __init__(self, g):
        self.g = g

    def getGenome(self):
        return self.g


class Fixed(object):
    """A variate that adds a constant."""
    x0 = 0.
    alpha = 1.

    def getSample(self, x0=None, alpha=None):
        return (self.x0 if x0 is None else x0) + 0.25


def pop_op(rng, steps, ids, sp, op, objs):
    b = dict(op)
    name = b.pop("op")
    byid = {ids(o): o for o in objs}

    def f():
        o = {}
        if name == "add":
            new = [Obj([float(rng.randint(-4, 4)) for _ in range(2)]) for _ in range(b["m"])]
            objs.extend(new)
            o["xs"], o["gens"] = [ids(x) for x in new], [[ids(x), genome(x)] for x in new]
            if len(new) == 1 and rng.random() < .5:
                sp.addIndividual(new[0])
            else:
                sp.addIndividuals(rng.choice([list, set])(new))
        elif name == "remove":
            xs = [byid[i] for i in b["xs"]]
            if len(xs) == 1 and rng.random() < .5:
                sp.removeIndividual(xs[0])
            else:
                sp.removeIndividuals(rng.choice([list, set])(xs))
        elif name == "set":
            sp.setIndividualFitness(byid[b["x"]], rng.choice([int, float])(b["v"]))
        elif name == "clear":
            sp.clearFitness()
        elif name == "removeworst":
            sp.removeWorstIndividuals(b["n"])
        elif name == "best":
            s, w = sp.getBestIndividuals(b["n"]), sp.getWorstIndividuals(b["n"])
            o.update(set=[ids(x) for x in s], sorted=[ids(x) for x in sp.getBestIndividualsSorted(b["n"])], worst=[ids(x) for x in w])
            s.clear(); w.clear(); sp.getIndividuals().clear(); sp.getFitnessMap().clear()
        elif name == "stats":
            a = sp.getAverageFitness()
            return {"max": fit(sp.getMaxFitness()), "avg": NONE if a == -inf else FX(a)}
        o["obs"] = obs(ids, [sp])
        return o
    b.update({"obs": [], "xs": b.get("xs", []), "gens": [], "set": [], "sorted": [], "worst": [], "max": 0, "avg": 0})
    steps.append(step(name, b, f))
    return not b["err"]


def population(rng):
    ids, sp, objs, steps = Ids(), SimplePopulation(), [], []
    w = rng.choice([1, 3, 100])
    for _ in range(rng.randint(3, 14)):
        cur = sorted(ids(x) for x in sp.getIndividuals())
        k = rng.choice(["add", "set", "set", "set", "set", "best", "removeworst", "remove", "clear", "stats"])
        if not cur or (k == "add" and len(cur) < 7):
            op = {"op": "add", "m": rng.randint(1, 3)}
        elif k == "remove":
            op = {"op": k, "xs": rng.sample(cur, rng.randint(1, min(2, len(cur))))}
        elif k in ("best", "removeworst"):
            op = {"op": k, "n": rng.randint(0, len(cur) + 2)}
        elif k in ("clear", "stats"):
            op = {"op": k}
        else:
            op = {"op": "set", "x": rng.choice(cur), "v": rng.randint(-w, w)}
        if not pop_op(rng, steps, ids, sp, op, objs):
            break
    return trace("population", "pop", steps)


class Evo(object):
    def __init__(self, rng, steps, max_, ops=None):
        self.rng, self.steps, self.max = rng, steps, max_
        self.ids = Ids()
        self.comb = rng.choice([1, 1, 2, 3])
        self.shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        self.cfg = {"max": max_, "comb": self.comb, "shape": self.shape}
        self.n = max_

    def new(self):
        lo, hi = self.rng.choice([(-.5, .5), (0., 1.), (2., 3.)])
        proto = [[0.25] * k for k in self.shape]
        b = {"obs": [], "lo": FX(lo), "hi": FX(hi), "proto": False}

        def f():
            kw = {} if self.comb == 1 and self.rng.random() < .5 else {"nCombinations": self.comb}
            self.p = EvolinoPopulation(EvolinoSubIndividual(proto), self.max, valueInitializer=Randomization(lo, hi), **kw)
            # dyadic genomes
            for sp in self.p.getSubPopulations():
                for x in sp.getIndividuals():
                    g = x.getGenome()
                    for i in range(len(g)):
                        g[i] = round(g[i] * 4096) / 4096.
            return {"obs": obs(self.ids, self.p.getSubPopulations()), "proto": proto == [[0.25] * k for k in self.shape]}
        self.steps.append(step("new", b, f))
        return not b["err"]

    def do(self, name, **kw):
        b = dict(kw)
        b.update({"obs": [], "delta": 1024})

        def f():
            o = {}
            sps = self.p.getSubPopulations()
            if name == "select":
                s = EvolinoSelection()
                if b["n"] != NONE:
                    s.nParents = b["n"]
                s.apply(self.p)
            elif name in ("reproduce", "burst"):
                kw = self.rng.choice([lambda: {"mutationVariate": Fixed()}, lambda: {"mutation": self.mutation()}])()
                (EvolinoReproduction if name == "reproduce" else EvolinoBurstMutation)(**kw).apply(self.p)
            elif name == "clear":
                self.p.clearFitness()
            elif name == "combine":
                inds = list(self.p.getIndividuals())
                self.inds = [[self.ids(x) for x in i.getSubIndividuals()] for i in inds]
                self.objs = inds
                o["inds"] = [{"subs": q, "genome": [[FX(v) for v in g] for g in i.getGenome()]} for q, i in zip(self.inds, inds)]
                for i in inds[:1]:
                    i.getGenome()[0][0] = 77.
                    i.getSubIndividuals().pop()
            elif name == "credit":
                self.p.setIndividualFitness(self.objs[b["k"]], self.rng.choice([int, float])(b["v"]))
            o["obs"] = obs(self.ids, sps)
            return o
        if name == "credit":
            b["subs"] = self.inds[b["k"]]
        if name == "combine":
            b["inds"] = []
        self.steps.append(step(name, b, f))
        return not b["err"]

    def mutation(self):
        m = EvolinoSubMutation()
        m.mutationVariate = Fixed()
        return m


def evolino(rng):
    steps = []
    e = Evo(rng, steps, rng.choice([1, 2, 3, 4, 5, 6, 7, 8]))
    w = rng.choice([1, 3, 100])
    if e.new():
        full = True
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .3 and not e.do("clear"):
                break
            if full:
                if not e.do("combine"):
                    break
                ks = list(range(len(e.inds)))
                rng.shuffle(ks)
                if not all(e.do("credit", k=k, v=rng.randint(-w, w)) for k in ks[:rng.choice([len(ks), len(ks), max(1, len(ks) // 2)])]):
                    break
            k = rng.random()
            if k < .2:
                if not e.do("burst"):
                    break
                continue
            n = NONE if rng.random() < .5 else rng.randint(1, e.max)
            if not e.do("select", n=n) or not e.do("reproduce"):
                break
    return trace("evolino", "evo", steps, **e.cfg)


# ----------------------------------------------------------------------- hashing
def minhash(rng, beh=None):
    dim = rng.randint(1, 8)
    if beh:
        dim = len(beh["cfg"]["perms"][0])
    np_ = rng.randint(1, 3)
    steps = []
    err, h = guarded(lambda: MinHash(dim, np_))
    T = trace("minhash", "minhash", steps, perms=[])
    if not err and beh:
        h.permutations = array([[v - 1 for v in p] for p in beh["cfg"]["perms"]])
        np_ = len(beh["cfg"]["perms"])
    b = {"n": np_, "dim": dim, "op": "perms", "err": err}
    steps.append(b)
    if err:
        return T
    T["cfg"]["perms"] = [[I(v) + 1 for v in p] for p in h.permutations]
    stored, dens = [], rng.choice([.2, .5, .9])

    def item():
        if stored and rng.random() < .5:
            x = list(rng.choice(stored))
            if rng.random() < .7:
                x[rng.randrange(dim)] ^= 1
            return x
        return [int(rng.random() < dens) for _ in range(dim)]
    ops = beh["ops"] if beh else [None] * rng.randint(2, 24)
    for op in ops:
        mk = rng.choice([lambda x: array(x), lambda x: array(x, bool), lambda x: array(x, float)])
        k = op["op"] if op else rng.choice(["put", "put", "put", "knn", "knn", "same", "refuse"])
        x = list(op["x"]) if op else item()
        if k == "put":
            b = step("put", {"x": x}, lambda: h.put(mk(x), len(stored) + 1) or {})
            stored.append(x)
        elif k == "knn":
            kk = op["k"] if op else rng.choice([1, 1, 2, 3, 50])

            def f():
                r = h.knn(mk(x), kk)
                return {"res": [I(s) for _, s in r], "xs": [IL(i) for i, _ in r]}
            b = step("knn", {"x": x, "k": kk, "res": [], "xs": []}, f)
        elif k == "same":
            y = item()
            b = step("same", {"x": x, "y": y, "res": 0}, lambda: {"res": FX(jacardCoefficient(mk(x), mk(y)))})
        else:
            def f():
                bad = rng.choice([array(x + [1]), array([x, x]), array(x[:-1] + [1, 0])])
                g = rng.choice([lambda: h.put(bad, 0), lambda: h.knn(bad, 1), lambda: jacardCoefficient(array(x + [0]), array(x))])
                try:
                    g()
                    return {"raised": False}
                except ValueError:
                    return {"raised": True}
            b = step("refuse", {"raised": False}, f)
        steps.append(b)
        if b["err"]:
            break
    return T


def lsh(rng):
    dim = rng.choice([1, 1, 1, 2, 2, 3])
    omega = rng.choice([2, 4, 4]) if dim < 3 else 2
    steps = []
    err, h = guarded(lambda: MultiDimHash(dim, **({} if omega == 4 else {"omega": omega})))
    T = trace("lsh%d" % dim, "lsh", steps, side=0, rad2=0)
    if err:
        steps.append({"op": "put", "err": err, "x": [], "cell": []})
        return T
    T["cfg"]["side"] = FX(omega * dim ** .25, 64)      # side of a hypercube, in 64ths
    T["cfg"]["rad2"] = FX(dim ** .5, 16) + 1             # squared radius in units of the points (quarters)
    stored = []
    wide = rng.choice([4, 16, 60])

    def point():
        if stored and rng.random() < .5:
            p = rng.choice(stored)
            return [v + rng.randint(-2, 2) for v in p]
        return [rng.randint(-wide, wide) for _ in range(dim)]

    def cell(x):
        c, ball = h.findBall(array([v / 4. for v in x]))
        return [I(v) for v in c] + [-1 if ball is None else I(ball)]
    for _ in range(rng.randint(3, 25)):
        x = point()
        if rng.random() < .6:
            def f():
                h.insert(array([v / 4. for v in x]), len(stored) + 1)
                return {"cell": cell(x)}
            b = step("put", {"x": x, "cell": [0] * (dim + 1)}, f)
            stored.append(x)
        else:
            kk = rng.choice([1, 1, 2, 3, 50])

            def f():
                r = h.knn(array([v / 4. for v in x]), kk)
                return {"res": [I(s) for _, s in r], "xs": [[SC(v, 2) for v in p] for p, _ in r], "cell": cell(x)}
            b = step("knn", {"x": x, "k": kk, "res": [], "xs": [], "cell": [0] * (dim + 1)}, f)
        steps.append(b)
        if b["err"]:
            break
    return T


def run(job):
    rng = job.rng
    out = []
    for k in range(job.args["count"]):
        j = k % 8
        if j < 2:
            t = trace("ranking", "calls", [ranking(rng) for _ in range(8)])
        elif j == 2:
            t = trace("grid", "calls", [rng.choice([grid, doe])(rng) for _ in range(2)])
        elif j == 3:
            t = population(rng)
        elif j < 6:
            t = evolino(rng)
        elif j == 6:
            t = minhash(rng)
        else:
            t = lsh(rng)
        t["name"] += "-%d" % k
        out.append(t)
    job.write("ranks", out)


def replay(job):
    """Histories of the specification on the simple population, Evolino's sub-populations and the hash."""
    rng = job.rng
    out = []
    for k, beh in enumerate(job.behaviours):
        if beh["cfg"]["kind"] == "minhash":
            t = minhash(rng, beh)
        elif any(op["op"] in ("select", "reproduce", "burst") for op in beh["ops"]):
            steps = []
            e = Evo(rng, steps, beh["cfg"]["max"])
            ok = e.new()
            full = True
            for op in beh["ops"]:
                if not ok:
                    break
                o = op["op"]
                if o == "set":
                    if full:
                        ok = e.do("combine")
                        e.fresh = True
                    if ok and getattr(e, "fresh", False):
                        ok = e.do("credit", k=op["x"] % len(e.inds), v=op["v"])
                elif o == "select":
                    ok = e.do("select", n=NONE)
                    full = e.fresh = False
                elif o in ("reproduce", "burst"):
                    ok = e.do(o)
                    full, e.fresh = True, False
                elif o == "clear":
                    ok = e.do("clear")
            t = trace("evolino_gen", "evo", steps, **e.cfg)
        else:
            ids, sp, objs, steps = Ids(), SimplePopulation(), [], []
            for op in beh["ops"]:
                cur = sorted(ids(x) for x in sp.getIndividuals())
                o = dict(op)
                if o["op"] == "add":
                    o["m"] = 1
                elif o["op"] == "best":
                    o["n"] = rng.randint(0, len(cur) + 1)
                elif o["op"] == "set":
                    o["x"] = cur[o["x"] % len(cur)]
                if not pop_op(rng, steps, ids, sp, o, objs):
                    break
            t = trace("pop_gen", "pop", steps)
        t["name"] += "-%d" % k
        out.append(t)
    job.write("ranks_gen", out)


main({"random": run, "replay": replay})
