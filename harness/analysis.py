"""Driver for data analysis and sampling tools (spec Analysis)."""
from common import *
from numpy import array
import tempfile, shutil, io, contextlib


class Stub(object):
    """Prescribed draws in place of the random generators; None = the real generator."""
    uni, gau, npuni, rnd, beta, mvn, stdn, randint, log = None, None, None, None, None, None, None, None, []


def queue(name, real, shape):
    """Replacement of a numpy generator that takes its values from Stub.<name>."""
    def f(*a, **k):
        q = getattr(Stub, name)
        if q is None:
            return real(*a, **k)
        return shape(q, real, a, k)
    return f


import random as _random
_uni = _random.uniform
_random.uniform = lambda a, b: _uni(a, b) if Stub.uni is None else Stub.uni(a, b)
_nr = numpy.random


def _rand(q, real, a, k):
    n = int(numpy.prod(a)) if a else 1
    v = array([q() for _ in range(n)])
    return v.reshape(a) if a else v[0]


_nr.rand = queue("rnd", _nr.rand, _rand)
_nr.random = queue("npuni", _nr.random, lambda q, real, a, k: q())
_nr.normal = queue("gau", _nr.normal, lambda q, real, a, k: q(*a))
_nr.beta = queue("beta", _nr.beta, lambda q, real, a, k: q(*a))
_nr.multivariate_normal = queue("mvn", _nr.multivariate_normal, lambda q, real, a, k: q(*a))
_nr.standard_normal = queue("stdn", _nr.standard_normal, lambda q, real, a, k: q(*a))
_nr.randint = queue("randint", _nr.randint, lambda q, real, a, k: q(*a))

from pybrain.auxiliary import pca as pcamod
from pybrain.auxiliary.kmeans import kinit, kmeanspp
from pybrain.auxiliary.gaussprocess import GaussianProcess
from pybrain.auxiliary.importancemixing import importanceMixing
from pybrain.tools.ibp import leftordered, generateIBP
from pybrain.tools.aptativeresampling import AdaptiveResampler
from pybrain.tools.mixtures.mixtureofgaussian import MixtureOfGaussians as MogA
from pybrain.tools.mixtures.mogpuremax import MixtureOfGaussians as MogB
from pybrain.tools.kwargsprocessor import KWArgsProcessor
from pybrain.rl.learners.meta.levinsearch import LevinSeach
from pybrain.datasets import SupervisedDataSet, SequentialDataSet

ONE = 4096.


def fl(v):
    return array([x / ONE for x in v])


def FM(m):
    m = numpy.asarray(m)
    if m.ndim != 2:
        raise Malformed("%d dimensions" % m.ndim)
    if numpy.iscomplexobj(m):
        if abs(m.imag).max() > 0:
            raise Malformed("complex")
        m = m.real
    return [[FX(x) for x in r] for r in m]


class Quiet(object):
    def __enter__(self):
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


class DataRun(object):
    def __init__(self, cfg, rng):
        self.rng = rng

    def step(self, op):
        X = array(op["x"], dtype=float) if "x" in op else None
        if op["op"] == "pca":
            Y = X.copy()
            v = pcamod.pca(X, op["dim"])
            y = pcamod.reduceDim(X, op["dim"]) if op["dim"] % 2 else pcamod.reduceDim(X, op["dim"], "pca")
            return {"v": FM(v), "y": FM(y), "same": bool((X == Y).all())}
        if op["op"] == "ppca":
            try:
                v = FM(pcamod.pca(X, op["dim"]))
            except AssertionError:
                return {"v": [], "w": []}
            st = [0.83, -0.47, 1.91, 0.29, 0.71, -1.53, 0.53, 1.27, -2.03]
            Stub.stdn = lambda *a: array([st[i % 9] for i in range(int(numpy.prod(a[0])))]).reshape(a[0])
            try:
                e, w = guarded(lambda: FM(pcamod.pPca(X, op["dim"])), [])
            finally:
                Stub.stdn = None
            return {"v": v, "w": w, "err": e}
        if op["op"] == "nofunc":
            pcamod.reduceDim(array([[1., 2.], [2., 0.]]), 1, "nosuchthing")
            return {}
        if op["op"] == "kmeans":
            op["first"] %= len(X)
            op["k"] = min(op["k"], len(X))
            seen = []
            Stub.randint = lambda *a: seen.append(a) or op["first"]
            try:
                seeds = IM(kinit(X, op["k"]))
                if len(seen) != 1 or (seen[0] != (len(X),) and seen[0] != (0, len(X))):
                    raise Malformed("the first seed is drawn from %s" % (seen,))
                c, lab = kmeanspp(X, op["k"])
            finally:
                Stub.randint = None
            return {"seeds": seeds, "cen": FM(c), "lab": IL(lab)}


class GpRun(object):
    def __init__(self, cfg, rng):
        self.h, self.cfg = cfg["h"], cfg
        d = len(cfg["lo"])

        def num(v):
            x = v / ONE
            return int(x) if x == int(x) and cfg.get("ints", True) else x
        a = [[num(x) for x in cfg[k]] for k in ("lo", "hi", "st")]
        if all(len(set(v)) == 1 for v in a) and cfg.get("scalar", True):
            self.gp = GaussianProcess(d, *[v[0] for v in a])
        else:
            self.gp = GaussianProcess(d, *[tuple(v) for v in a])
        self.gp.hyper = (self.h["len"] / ONE, self.h["amp"] / ONE, .1)
        if cfg["mean"]:
            self.gp.mean = cfg["mean"] / ONE
        self.d = d

    def ds(self, data, reuse=None):
        s = reuse if reuse is not None else (SupervisedDataSet if len(data) % 2 else SequentialDataSet)(self.d, 1)
        for e in data:
            s.addSample(fl(e["x"]), e["y"] / ONE)
        return s

    def step(self, op):
        g = self.gp
        if op["op"] == "grid":
            t = numpy.asarray(g.testx, dtype=float)
            return {"t": [[FX(x) for x in r] for r in t]}
        if op["op"] == "add":
            g.addSample(fl(op["x"]) if self.cfg["mean"] else list(fl(op["x"])), op["y"] / ONE)
            return {}
        if op["op"] == "addset":
            s = self.ds(op["data"])
            g.addDataset(s)
            return {}
        if op["op"] == "train":
            g.trainOnDataset(self.ds(op["data"]))
            return {}
        if op["op"] == "reset":
            g.reset()
            return {}
        if op["op"] == "test":
            m = g.testOnArray(array([fl(x) for x in op["t"]]))
            return {"m": FXL(m), "c": FM(g.pred_cov)}
        if op["op"] == "draw":
            box = {}

            def mvn(mean, cov, *a):
                box["zero"] = bool((numpy.asarray(mean) == 0).all())
                box["c"] = FM(cov)
                return array([(op["u"][i] if i < len(op["u"]) else 0) / ONE for i in range(len(mean))])
            Stub.mvn = mvn
            try:
                y = FXL(g.draw())
            finally:
                Stub.mvn = None
            return {"y": y, "zero": box["zero"], "c": box["c"]}


class MixRun(object):
    def __init__(self, cfg, rng):
        self.old, self.new = cfg["old"], cfg["new"]
        self.rng = rng

    def step(self, op):
        us, cs = list(op["u"]), list(op["cand"])
        rng = self.rng or _random.Random(5)
        good = [i + 1 for i in range(len(self.old)) if self.new[i] > self.old[i]]
        op["u"], op["cand"] = [], []
        count = [0]

        def uni(a, b):
            count[0] += 1
            if count[0] > 4000:
                raise Malformed("never finishes")
            u = us.pop(0) if us else 0 if rng.random() < .3 else rng.randrange(64)
            op["u"].append(u)
            return a + (b - a) * u / 64.

        def draw():
            c = cs.pop(0) if cs else rng.choice(good)
            op["cand"].append(c)
            return array([float(c)])
        Stub.uni = uni
        try:
            keep, fresh = importanceMixing([array([float(p)]) for p in op["pts"]], lambda x: float(self.old[int(x[0]) - 1]), lambda x: float(self.new[int(x[0]) - 1]), draw,
                                           **({} if op["f"] < 0 else {"forcedRefresh": op["f"] / 8.}))
        finally:
            Stub.uni = None
        return {"keep": IL(keep), "fresh": [I(x) for x in fresh]}


class IbpRun(object):
    def __init__(self, cfg, rng):
        pass

    def step(self, op):
        if op["op"] == "order":
            m = array(op["m"], dtype=bool if len(op["m"]) % 2 else int)
            return {"m": IM(numpy.asarray(leftordered(m), dtype=int))}
        asked = []

        def beta(*a):
            asked.append([I(a[0]), I(a[1]), I(a[2])])
            if a[2] != len(op["nu"]):
                raise Malformed("asked for %d dishes" % a[2])
            return array([x / 4. for x in op["nu"]])
        flat = [u for row in op["u"] for u in row]
        Stub.beta, Stub.rnd = beta, lambda: flat.pop(0) / 64.
        try:
            m = generateIBP(op["n"], op["alpha"], .5) if op["half"] else generateIBP(op["n"], op["alpha"])
        finally:
            Stub.beta = Stub.rnd = None
        m = numpy.asarray(m)
        return {"asked": asked[0] if len(asked) == 1 else [], "rows": m.shape[0], "cols": [[int(x) for x in c] for c in m.T]}


class ResampleRun(object):
    def __init__(self, cfg, rng):
        self.q = []
        kw = {"max_resampling": cfg["max"]} if cfg["max"] else {}
        self.r = AdaptiveResampler(lambda x: self.next(x), cfg["batch"], cfg["fn"] / float(cfg["fd"]), cfg["thr"] / 4., **kw)

    def next(self, x):
        if x != "here":
            raise Malformed("another point")
        self.used += 1
        return float(self.q.pop(0))

    def step(self, op):
        self.q, self.used = list(op["f"]), 0
        return {"y": I(self.r("here")), "used": self.used}


class MogRun(object):
    def __init__(self, cfg, rng):
        kw = dict(numOGaus=cfg["k"], alphaA=cfg["ra"] / ONE, alphaM=cfg["rm"] / ONE, alphaS=cfg["rs"] / ONE)
        self.m = MogA("growSin", **kw) if cfg["typ"] == 1 else MogB(**kw)
        self.a = cfg["typ"] == 1

    def step(self, op):
        m = self.m
        if op["op"] == "learn":
            if not self.a:
                op["base"] = True
            m.learn(op["x"] / ONE, op["y"] / ONE, *(("max" if op["base"] else "dist",) if self.a else ()))
            return {"w": FXL(m.sigmo(m.alpha)), "al": FXL(m.alpha), "mu": FXL(m.mue), "sg": FXL(m.sigma), "base": FX(m.baseline), "best": FX(m.best)}
        if op["op"] == "draw":
            box = []
            Stub.npuni, Stub.gau = (lambda: op["u"] / ONE), (lambda *a: box.append(a) or 5.0)
            try:
                y = m.getSample()
            finally:
                Stub.npuni = Stub.gau = None
            if len(box) != 1:
                raise Malformed("draws %d times" % len(box))
            return {"y": FX(y), "back": FX(5.0), "mu": FX(box[0][0]), "sg": FX(box[0][1])}
        if op["op"] == "anywhere":
            Stub.npuni = lambda: op["u"] / ONE
            try:
                return {"y": FX(m.getSample("dist") if self.a else op["u"] / ONE * 40 - 20)}
            finally:
                Stub.npuni = None
        if op["op"] == "dens":
            return {"y": FX(m.getGaus(m.alpha, m.mue, m.sigma, op["x"] / ONE))}


class LevinRun(object):
    def __init__(self, cfg, rng):
        pass

    def step(self, op):
        runs, seen = [], {}

        class Prog(object):
            def __init__(s, k, after):
                s.k, s.after = k, after

            def run(s, inp):
                if inp != "problem":
                    raise Malformed("another input")
                runs.append(s.k)
                if len(runs) > 500:
                    raise Malformed("never finishes")
                seen[s.k] = seen.get(s.k, 0) + 1
                return True if s.after and seen[s.k] >= s.after else [False, None, "no", 0][s.k % 4]

        class Gen(object):
            def orderedEnumeration(s):
                return iter([(p["c"], Prog(i + 1, p["after"])) for i, p in enumerate(op["p"])])
        res = LevinSeach().run("problem", Gen())
        if res is not True:
            raise Malformed("result %s" % (res,))
        return {"runs": runs}


class KwRun(object):
    def __init__(self, cfg, rng):
        class Thing(object):
            pass
        self.o = Thing()
        self.kw = dict((e["n"], e["v"]) for e in cfg["kw"])
        self.p = KWArgsProcessor(self.o, self.kw)

    def step(self, op):
        k = {"default": op["dflt"]} if op["dflt"] >= 0 else {}
        if op["private"]:
            k["private"] = True
        if op["mandatory"]:
            k["mandatory"] = True
        e, _ = guarded(lambda: self.p.add(op["n"], **k))
        return {"err": e, "at": [{"n": n, "v": I(v)} for n, v in sorted(vars(self.o).items())]}


class NotesRun(object):
    def __init__(self, cfg, rng):
        from pybrain.tools import example_tools
        self.mod = example_tools

        class Learner(object):
            bestEvaluation = 1
            current = None

            def _bestFound(s):
                return [1], 1

            def initSigmas(s):
                s.sig = True

            class gd(object):
                @staticmethod
                def init(x):
                    Learner.got = list(x)

        class Agent(object):
            learner = Learner()
        self.nb = []
        for o, p in zip(cfg["opt"], cfg["per"]):
            t = example_tools.ExTools(p // 2, 2, "optimizer") if o else example_tools.ExTools(p, kind="learner")
            t.agent = Agent()
            self.nb.append(t)
        self.Learner = Learner

    def step(self, op):
        t = self.nb[op["k"] - 1]
        if op["op"] == "print":
            with Quiet():
                t.printResults([float(x) for x in op["v"]] if t.kind == "optimizer" else float(op["v"][0]), 0, 0)
            return {}
        if op["op"] == "close":
            t.addExps()
            return {}
        if op["op"] == "show":
            box = []
            keep = self.mod.errorbar, self.mod.show
            self.mod.errorbar, self.mod.show = (lambda x, y, d, *a, **k: box.append((x, y, d))), (lambda *a, **k: None)
            try:
                t.showExps()
            finally:
                self.mod.errorbar, self.mod.show = keep
            x, y, d = box[0]
            return {"x": IL(x), "y": FXL(y), "d": FXL(d)}
        if op["op"] == "save":
            d = tempfile.mkdtemp()
            try:
                fn = os.path.join(d, "w.wgt")
                v = array([float(x) for x in op["v"]])
                if op["what"] == 0:
                    t.saveWeights(fn, v)
                    t.loadWeights(fn)
                    return {"back": IL(t.agent.learner.current) if list(t.agent.learner.current) == self.Learner.got and t.agent.learner.sig else []}
                t.saveResults(fn, v)
                import pickle
                with open(fn, "rb") as f:
                    return {"back": IL(pickle.load(f))}
            finally:
                shutil.rmtree(d)


RUN = {"data": DataRun, "gp": GpRun, "mix": MixRun, "ibp": IbpRun, "resample": ResampleRun, "mog": MogRun, "levin": LevinRun, "kw": KwRun, "notes": NotesRun}


def run(name, cfg, ops, rng):
    steps, box = [], []
    err, _ = guarded(lambda: box.append(RUN[cfg["kind"]](cfg, rng)))
    for op in ops:
        op = json.loads(json.dumps(op))
        e, r = (err, None) if err else guarded(lambda: box[0].step(op))
        res = {"err": e}
        res.update(r or {})
        if e:
            res.setdefault("v", [])
            res.setdefault("at", [])
        op["res"] = res
        steps.append(op)
        if e:
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def replay(job):
    out = []
    for i, b in enumerate(job.behaviours):
        cfg = b["cfg"]
        cfg.pop("ops", None)
        cfg.update(ints=i % 3 > 0, scalar=i % 2 == 0)
        out.append(run("b%d" % i, cfg, b["ops"], None))
    job.write("replay", out)


def data_case(rng):
    ops = []
    for _ in range(rng.randint(1, 4)):
        w = rng.random()
        n, d = rng.randint(2, 6), rng.randint(1, 3)
        X = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(n)]
        if w < .4:
            ops.append({"op": "pca", "x": X, "dim": rng.randint(1, d)})
        elif w < .6:
            if rng.random() < .7:
                v = [rng.choice([1, -1, 2, 3]) for _ in range(d)]
                c = [rng.randint(-3, 3) for _ in range(n)]
                X = [[max(-9, min(9, a * b)) + rng.choice([0, 0, 0, 1]) for b in v] for a in c]
            ops.append({"op": "ppca", "x": X, "dim": rng.choice([1, 1, 1, d])})
        elif w < .64:
            ops.append({"op": "nofunc"})
        else:
            n = rng.randint(2, 7)
            X = []
            while len(X) < n:
                X.append([rng.randint(-5, 5) for _ in range(d)])
                if rng.random() < .15:
                    X.append(list(X[-1]))
            k = rng.randint(1, min(3, len(set(map(tuple, X)))))
            ops.append({"op": "kmeans", "x": X[:], "k": k, "first": rng.randrange(len(X))})
    return {"kind": "data"}, ops


def gp_case(rng):
    d = rng.choice([1, 1, 2])
    ln, amp = rng.choice([2048, 4096, 8192, 3072]), rng.choice([2048, 4096, 8192])
    sep = ln * 3 // 2
    lat = sep + 512 - sep % 512   # a lattice with the separation of distinct training inputs
    same = rng.random() < .5
    lo, hi, st = [rng.choice([-8192, -4096, 0])] * d, [rng.choice([2048, 4096, 4097])] * d, [rng.choice([2048, 4096, 3072])] * d
    if not same:
        lo = [rng.choice([-4096, 0, -2048]) for _ in range(d)]
        st = [rng.choice([2048, 4096, 3072]) for _ in range(d)]
    if d == 2:
        st = [max(s, 4096) for s in st]
        lo = [max(x, -4096) for x in lo]
    cfg = {"kind": "gp", "h": {"len": ln, "amp": amp}, "mean": rng.choice([0, 0, 2048, -4096]), "lo": lo, "hi": hi, "st": st, "ints": rng.random() < .5, "scalar": rng.random() < .7}

    def pt():
        return [lat * rng.randint(-1, 1) for _ in range(d)]

    def samples(k):
        return [{"x": pt(), "y": rng.randrange(-8192, 8193, 256)} for _ in range(k)]
    ops, pts, size = [], set(), 0
    for _ in range(rng.randint(2, 7)):
        w = rng.random()
        new = None
        if w < .1:
            ops.append({"op": "grid"} if not any(o["op"] == "test" for o in ops) else {"op": "reset"})
            if ops[-1]["op"] == "reset":
                size = 0
        elif w < .35 and size < 4:
            e = samples(1)[0]
            ops.append({"op": "add", "x": e["x"], "y": e["y"]})
            size += 1
        elif w < .45 and size < 3:
            ops.append({"op": "addset", "data": samples(rng.randint(1, 2))})
            size += 2
        elif w < .6:
            ops.append({"op": "train", "data": samples(rng.randint(1, 3))})
            size = 3
        elif w < .65:
            ops.append({"op": "reset"})
            size = 0
        elif w < .85 or not size:
            ops.append({"op": "test", "t": [[rng.randrange(-8192, 8193, 512) for _ in range(d)] if rng.random() < .7 else pt() for _ in range(rng.randint(1, 4))]})
        else:
            ops.append({"op": "draw", "u": [rng.randrange(-4096, 4097) for _ in range(rng.randint(0, 4))]})
    return cfg, ops


def mix_case(rng):
    n = rng.randint(2, 6)
    w = [1, 2, 4, 8]
    cfg = {"kind": "mix", "old": [rng.choice(w) for _ in range(n)] + [1], "new": [rng.choice(w) for _ in range(n)] + [8]}
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(1, 7)
        ops.append({"op": "mix", "pts": [rng.randint(1, n + 1) for _ in range(k)], "f": rng.choice([0, 0, 1, 2, 4, 8]), "u": [rng.choice([0, 63, rng.randrange(64), rng.randrange(64)]) for _ in range(2 * k)],
                    "cand": [rng.randint(1, n + 1) for _ in range(k)]})
    return cfg, ops


LAMQ = {1: (1, 1), 2: (3, 2), 3: (11, 6), 4: (25, 12)}


def cut(alpha, n):
    p, q = LAMQ[n]
    p *= alpha
    m = 1
    while not (m * q > p and (m * q - p) ** 2 > 4 * p * q):
        m += 1
    return m


def ibp_case(rng):
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .5:
            r, c = rng.randint(1, 4), rng.randint(1, 6)
            hi = rng.choice([1, 1, 2])
            M = [[rng.randint(0, hi) if hi == 2 else rng.randrange(2) for _ in range(c)] for _ in range(r)]
            if hi == 2 and r % 2:
                M = [[min(1, x) for x in row] for row in M]
            ops.append({"op": "order", "m": M})
        else:
            a, n = rng.randint(1, 2), rng.randint(1, 4)
            k = cut(a, n)
            while k > 9:
                a, n = 1, rng.randint(1, 3)
                k = cut(a, n)
            ops.append({"op": "buffet", "alpha": a, "n": n, "half": rng.random() < .4, "nu": [rng.choice([1, 2, 3, 3, 4, 4]) for _ in range(k)],
                        "u": [[rng.choice([0, 63, rng.randrange(64), rng.randrange(16)]) for _ in range(n)] for _ in range(k)]})
    return {"kind": "ibp"}, ops


def resample_case(rng):
    fn, fd, mx = rng.choice([(3, 2, 0), (2, 1, 3), (2, 1, 0), (2, 1, 1)])
    cfg = {"kind": "resample", "batch": rng.randint(2, 5), "thr": rng.randint(1, 3), "fn": fn, "fd": fd, "max": mx}
    ops = []
    spread = rng.choice([1, 3, 10])
    for k in range(rng.randint(3, 14)):
        base = 4 * rng.randint(-5, 5)
        ops.append({"op": "sample", "f": [base + 4 * rng.randint(-spread, spread) for _ in range(70)]})
    return cfg, ops


def mog_case(rng):
    k = rng.randint(2, 5)
    cfg = {"kind": "mog", "k": k, "typ": rng.randint(1, 2), "ra": rng.choice([2048, 4096, 8192]), "rm": rng.choice([512, 1024, 2048]), "rs": rng.choice([256, 512, 1024])}
    ops = []
    for _ in range(rng.randint(2, 6)):
        w = rng.random()
        if w < .55:
            ops.append({"op": "learn", "x": rng.randrange(-20 * 4096, 20 * 4096, 512), "y": rng.choice([4096, 8192, rng.randrange(-8192, 12288, 128)]), "base": rng.random() < .6})
        elif w < .8:
            ops.append({"op": "draw", "u": rng.randrange(0, 4090)})
        elif w < .9:
            ops.append({"op": "dens", "x": rng.randrange(-24 * 4096, 24 * 4096, 512)})
        else:
            ops.append({"op": "anywhere", "u": rng.randrange(4096)})
    return cfg, ops


def levin_case(rng):
    n = rng.randint(1, 6)
    cs = sorted(rng.randint(0, 5) for _ in range(n))
    p = [{"c": c, "after": rng.choice([0, 0, 1, 2, 3])} for c in cs]
    if not any(e["after"] for e in p):
        rng.choice(p)["after"] = 1
    return {"kind": "levin"}, [{"op": "levin", "p": p}]


def kw_case(rng):
    names = ["a", "b", "c"]
    kw = [{"n": n, "v": rng.randint(0, 9)} for n in names + ["zz"] if rng.random() < .5]
    return {"kind": "kw", "kw": kw}, [{"op": "kwadd", "n": rng.choice(names), "private": rng.random() < .3, "mandatory": rng.random() < .3, "dflt": rng.choice([-1, -1, 0, 3])} for _ in range(rng.randint(2, 6))]


def notes_case(rng):
    per = [2 * rng.randint(1, 3), rng.randint(1, 4)]
    opt = [True, rng.random() < .5]
    if opt[1]:
        per[1] *= 2
    m = [rng.randint(1, 3), rng.randint(1, 3)]
    plan = [[], []]
    for k in (0, 1):
        for _ in range(rng.randint(1, 3)):
            plan[k] += [{"op": "print", "k": k + 1, "v": [rng.randint(-9, 9) for _ in range(rng.randint(1, 3))]} for _ in range(m[k])] + [{"op": "close", "k": k + 1}]
        plan[k].append({"op": "show", "k": k + 1})
        plan[k].insert(rng.randrange(len(plan[k])), {"op": "save", "k": k + 1, "what": rng.randrange(2), "v": [rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]})
    ops = []
    while plan[0] or plan[1]:
        k = rng.randrange(2)
        if plan[k]:
            ops.append(plan[k].pop(0))
    return {"kind": "notes", "opt": opt, "per": per}, ops


def rnd(job):
    rng, out = job.rng, []
    cases = [data_case, data_case, gp_case, gp_case, gp_case, mix_case, mix_case, ibp_case, resample_case, resample_case, mog_case, mog_case, levin_case, kw_case, notes_case]
    for i in range(job.args["count"]):
        cfg, ops = rng.choice(cases)(rng)
        out.append(run("r%d" % i, cfg, ops, rng))
    job.write("random", out)


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
