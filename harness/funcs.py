"""Driver for benchmark functions (spec Funcs)."""
from common import *
from math import floor
from scipy import array, dot
from pybrain.rl.environments.functions import unimodal, multimodal, unbounded, bbob2010, lennardjones, multiobjective as mo
from pybrain.rl.environments.functions import transformations as tr
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.optimization.populationbased.multiobjective import ConstMultiObjectiveGA, MultiObjectiveGA

NONE = -1000000
UNI = ["Sphere", "Schwefel", "Cigar", "Tablet", "Elli", "SharpRBis", "DiffPow", "Rosenbrock", "Glasmachers", "StepElli", "AttractiveSector"]
MULTI = ["Funnel", "Rastrigin", "Weierstrass", "SchaffersF7", "Ackley", "Griewank", "BucheRastrigin", "GriewankRosenbrock", "Schwefel_2_13", "Schwefel20",
         "GallagherGauss101Me", "GallagherGauss21Hi", "Katsuura", "LunacekBiRastrigin", "Branin"]
UNB = ["Linear", "ParabR", "SharpR"]
CLS = {n: getattr(unimodal, n + "Function") for n in UNI if n != "SharpRBis"}
CLS["SharpRBis"] = unimodal.SharpRFunctionBis
CLS["BoundedLinear"] = unimodal.BoundedLinear
CLS.update({n: getattr(multimodal, n + "Function") for n in MULTI})
CLS.update({n: getattr(unbounded, n + "Function") for n in UNB})
CLS["LennardJones"] = lennardjones.LennardJones
MO = {"Sch": mo.SchBenchmark, "Deb": mo.Deb, "ConstDeb": mo.ConstDeb, "ConstSrn": mo.ConstSrn, "ConstOsy": mo.ConstOsy, "ConstTnk": mo.ConstTnk, "ConstBnh": mo.ConstBnh, "Pol": mo.Pol, "PolBenchmark": mo.PolBenchmark}
MODIM = {"Sch": 1, "ConstOsy": 6}
MIN2 = set(MULTI) | {"Cigar", "Tablet", "Elli", "StepElli", "DiffPow", "Glasmachers", "BoundedLinear"}
MOVING = {"AttractiveSector", "Schwefel_2_13", "Schwefel20", "GallagherGauss101Me", "GallagherGauss21Hi", "LunacekBiRastrigin", "Branin"}
ZERO = [0, 0]


def V(x):
    x = numpy.asarray(x, dtype=float).reshape(-1)
    if x.size != 1:
        raise Malformed("value of size %d" % x.size)
    f = float(x[0])
    if f != f or abs(f) > 1e300:
        raise Malformed("not finite")
    if abs(f) > 2 ** 30:
        f = 2. ** 30 if f > 0 else -2. ** 30
    q = int(round(f * 4096))
    return [q // 4096, q % 4096]


def H(x2):
    return array(x2, dtype=float) / 2.


class Sess(object):
    def __init__(self, rng):
        self.rng, self.fs, self.dims, self.kind, self.steps = rng, [], [], [], []

    def meta(self):
        out = []
        for f, kind in zip(self.fs, self.kind):
            m = {"dim": I(f.xdim), "indim": I(f.indim), "outdim": I(f.outdim), "cons": False, "feas": "", "viol": [], "min": bool(f.toBeMinimized), "dv": [0, ""], "pen": bool(f.penalized), "xo": []}
            if kind in MO:
                m["cons"] = bool(f.constrained)
                m["feas"] = "infeasible" if f.outfeasible is not None and not f.outfeasible else "ok"
                if kind.startswith("Const") and f.outviolation is not None and f.outviolation is not False:
                    m["viol"] = [V(x) for x in f.outviolation]
            else:
                dv = f.desiredValue
                neg = self.neg[id(f)]
                m["dv"] = [-1 if neg else 1, "%.6g" % (-dv if neg else dv)]
                xo = numpy.asarray(f.xopt, dtype=float).reshape(-1)
                m["xo"] = [int(round(2 * v)) if abs(2 * v - round(2 * v)) < 1e-6 else 999999 for v in xo]
            out.append(m)
        return out

    neg = None

    def rec(self, b, fn):
        """One step: fn() fills b and returns a new function or None."""
        b.setdefault("f", 1)
        err, r = guarded(fn)
        b["err"] = err
        new = None
        if not err and r is not None:
            new = r
            self.fs.append(r[0])
            self.kind.append(r[1])
            self.neg[id(r[0])] = r[2]
        if not err:
            err2, m = guarded(self.meta)
            b["err"], b["fs"] = err2, m
        b.setdefault("fs", [])
        if b["err"]:
            b["fs"] = []
        self.steps.append(b)
        return b["err"]

    def new(self, base, dim, how=0):
        b = {"op": "new", "base": base, "dim": dim, "sg": [1, 1]}

        def go():
            f = CLS[base]() if dim == NONE else CLS[base](xdim=dim) if how else CLS[base](dim)
            if base == "BoundedLinear":
                b["sg"] = [int(round(float(v) / 5)) for v in f.xopt]
            return f, base, False
        return self.rec(b, go)

    def wrap(self, op, k, **kw):
        f, kind = self.fs[k], self.kind[k]
        b = dict(op=op, f=k + 1, **kw)

        def go():
            if op == "translate":
                return tr.TranslateFunction(f, offset=H(kw["o"])), kind, self.neg[id(f)]
            if op == "rotate":
                return tr.RotateFunction(f, rotMat=array(kw["m"], dtype=float)), kind, self.neg[id(f)]
            if op == "soft":
                return tr.SoftConstrainedFunction(f, kw["dist"] / 2., float(kw["fac"])), kind, self.neg[id(f)]
            return tr.oppositeFunction(f), kind, not self.neg[id(f)]
        return self.rec(b, go)

    def arg(self, x2, how):
        if how == "list":
            return [v / 2. for v in x2]
        if how == "container":
            p = ParameterContainer(len(x2))
            p._setParameters(H(x2))
            return p
        return H(x2)

    def eval(self, k, x2, how="array", op="eval"):
        b = {"op": op, "f": k + 1, "x": list(x2), "how": how, "v": ZERO, "same": True}

        def go():
            a = self.arg(x2, how)
            f = self.fs[k]
            if op == "act":
                f.performAction(a)
                b["v"] = V(f.result)
            else:
                b["v"] = V(f(a))
            b["same"] = bool((numpy.asarray(a.params if how == "container" else a) == H(x2)).all())
        return self.rec(b, go)

    def sense(self, k):
        b = {"op": "sense", "f": k + 1, "v": ZERO}

        def go():
            b["v"] = V(self.fs[k].getSensors())
        return self.rec(b, go)

    def reset(self, k):
        return self.rec({"op": "reset", "f": k + 1}, lambda: self.fs[k].reset())

    def opt(self, k):
        b = {"op": "opt", "f": k + 1, "v": ZERO}

        def go():
            f = self.fs[k]
            b["v"] = V(f(array(f.xopt, dtype=float)))
        return self.rec(b, go)


def sess(rng):
    s = Sess(rng)
    s.neg = {}
    return s


def unimodular(rng, d):
    """An integer matrix with an integer inverse."""
    m = [[0] * d for _ in range(d)]
    p = list(range(d))
    rng.shuffle(p)
    for i in range(d):
        m[i][p[i]] = rng.choice([1, -1])
    m = numpy.array(m)
    if d > 1 and rng.random() < .5:
        e = numpy.eye(d, dtype=int)
        i, j = rng.sample(range(d), 2)
        e[i, j] = rng.choice([1, -1, 2])
        m = m.dot(e)
    inv = numpy.rint(numpy.linalg.inv(m.astype(float))).astype(int)
    return m.tolist(), inv.tolist()


def point(rng, d):
    st = rng.random()
    g = rng.choice([2, 4, 8, 16])
    if st < .15:
        r = 2 * rng.randint(0, 8)
        return [rng.choice([r, -r]) for _ in range(d)]
    if st < .25:
        x = [0] * d
        x[rng.randrange(d)] = rng.randint(-g, g)
        return x
    if st < .4:
        return [2 * rng.randint(-g // 2, g // 2) for _ in range(d)]
    if st < .5 and d > 2:
        x = [rng.randint(-g, g)] + [0] * (d - 1)
        x[1:3] = rng.choice([[6, 8], [5, 12], [-8, 6], [3, 4]])
        return x
    return [rng.randint(-g, g) for _ in range(d)]


def atoms(rng, n):
    pts = set()
    while len(pts) < n:
        pts.add(tuple(2 * rng.randint(-1, 1) for _ in range(3)))
    pts = list(pts)
    rng.shuffle(pts)
    return [v for p in pts for v in p]


def single(rng):
    s = sess(rng)
    asked = [[] for _ in range(20)]
    bases = UNI + ["BoundedLinear"] + MULTI + UNB + ["LennardJones"]
    fam = rng.choice([bases, bases, ["Sphere", "Schwefel", "Rosenbrock", "Rastrigin", "Funnel", "BoundedLinear", "Cigar"]])
    for _ in range(rng.randint(8, 26)):
        n = len(s.fs)
        c = rng.random()
        if n == 0 or (c < .15 and n < 8):
            base = rng.choice(fam)
            if base == "LennardJones":
                d = 3 * rng.randint(2, 5)
            elif base == "BoundedLinear":
                d = rng.choice([2, 2, 2, NONE, 1])
            elif base == "Elli":
                d = rng.choice([2, 3, 4, 7, NONE, 1])
            elif base == "DiffPow":
                d = rng.choice([2, 3, 6, NONE, 1, 5])
            elif base == "Branin":
                d = rng.choice([2, 2, NONE, 3, 1])
            else:
                d = rng.choice([NONE, 1, 2, 2, 3, 3, 4, 5])
            fits = d == NONE or (d >= (2 if base in MIN2 else 1) and not (base == "Branin" and d > 2))
            e = s.new(base, d, rng.random() < .4)
            if e and (fits or e != "AssertionError"):
                break
            continue
        k = rng.randrange(n)
        f, base = s.fs[k], s.kind[k]
        d = int(f.xdim)
        if c < .4 and n < 12:
            op = rng.choice(["translate", "rotate", "soft", "opposite"])
            if base == "LennardJones" or (op == "soft" and base in MOVING):
                op = "opposite"
            kw = {}
            if op == "translate":
                kw["o"] = [rng.randint(-5, 5) for _ in range(d)]
            elif op == "rotate":
                kw["m"], kw["mi"] = unimodular(rng, d)
            elif op == "soft":
                kw["dist"], kw["fac"] = rng.choice([0, 2, 5, 10]), rng.choice([1, 1, 3, 100])
            if s.wrap(op, k, **kw):
                break
        else:
            x = atoms(rng, d // 3) if base == "LennardJones" else point(rng, d)
            if asked[k] and rng.random() < .3:
                x = rng.choice(asked[k])
            asked[k].append(x)
            r = rng.random()
            if r < .5:
                e = s.eval(k, x, rng.choice(["array", "array", "container"]))
            elif r < .55:
                s.eval(k, x, "list")
                continue
            elif r < .68:
                e = s.eval(k, x, "array", "act")
            elif r < .8:
                e = s.sense(k)
                if e == "AssertionError":
                    continue
            elif r < .85:
                e = s.reset(k)
            elif base in UNB or base == "LennardJones":
                continue
            else:
                e = s.opt(k)
            if e:
                break
    return s.steps


def spheres(rng):
    """Random rotations and translations of the sphere keep distances."""
    s = sess(rng)
    b = {"op": "rel"}
    d = rng.randint(1, 5)
    steps = []
    for _ in range(6):
        b = {"op": "rel", "f": 1, "d": [rng.randint(-9, 9) for _ in range(d)], "v": ZERO}

        def go():
            f = unimodal.SphereFunction(d)
            for _ in range(rng.randint(1, 3)):
                f = rng.choice([tr.RotateFunction, tr.TranslateFunction, lambda g: tr.BBOBTransformationFunction(g, rotate=rng.random() < .5)])(f)
            b["v"] = V(f(array(f.xopt, dtype=float) + H(b["d"])))
        s.rec(b, go)
    dist = rng.choice([.1, .5, 3])
    b = {"op": "shift", "f": 1, "n": 0, "want": FX(dist)}

    def go():
        f = unimodal.SphereFunction(d)
        g = tr.TranslateFunction(f, distance=dist) if dist != .1 else tr.TranslateFunction(f)
        b["n"] = FX(float(numpy.linalg.norm(numpy.asarray(g.xopt) - numpy.asarray(f.xopt))))
    s.rec(b, go)
    return s.steps


PEN = {"bbob_f4": 100, "bbob_f7": 1}


def bbob(rng, names):
    s = sess(rng)
    for fn in names:
        name, dim = fn.__name__, rng.choice([2, 3, 5, 8])
        b = {"op": "bbob", "f": 1, "name": name, "dim": dim, "opt": [], "vs": [], "vs2": [], "noisy": int(name[6:]) > 100, "same": True, "dv": "", "min": True, "dims": 0, "inside": True, "pen": []}

        def go():
            f = fn(dim)
            xo = array(f.xopt, dtype=float)
            pts = [array([rng.uniform(-7, 7) for _ in range(dim)]) for _ in range(4)] + [xo + array([rng.gauss(0, .1) for _ in range(dim)]) for _ in range(4)]
            keep = [p.copy() for p in pts]
            b["opt"] = [V(f(xo))]
            b["vs"] = [V(f(p)) for p in pts]
            other = fn(dim)
            other(pts[0])
            b["vs2"] = [V(f(p)) for p in pts]
            b["opt"].append(V(f(array(f.xopt, dtype=float))))
            b["same"] = all((p == q).all() for p, q in zip(pts, keep)) and bool((xo == f.xopt).all())
            b["dv"], b["min"], b["dims"] = "%.6g" % f.desiredValue, bool(f.toBeMinimized), I(f.xdim)
            b["inside"] = bool((abs(xo) <= 5).all())
            if name in PEN:
                b["pen"] = [int(min(PEN[name] * sum(max(0, abs(v) - 5) ** 2 for v in p), 2 ** 30)) for p in pts]
        s.rec(b, go)
    return s.steps


def multi(rng):
    s = sess(rng)
    for _ in range(rng.randint(8, 22)):
        n = len(s.fs)
        c = rng.random()
        if n == 0 or (c < .2 and n < 6):
            base = rng.choice(list(MO))
            if s.rec({"op": "mo", "base": base}, lambda: (MO[base](), base, False)):
                break
        elif c < .35 and n < 9:
            k = rng.randrange(n)
            f, base, neg = s.fs[k], s.kind[k], s.neg[id(s.fs[k])]
            if s.rec({"op": "moopp", "f": k + 1}, lambda: (tr.oppositeFunction(f), base, not neg)):
                break
        else:
            k = rng.randrange(n)
            f, base = s.fs[k], s.kind[k]
            d = MODIM.get(base, 2)
            if base in ("Deb", "ConstDeb"):
                x = [rng.choice([1, 1, 2]), rng.randint(0, 10)]
            elif base == "ConstTnk":
                r = rng.randint(0, 4)
                x = rng.choice([[r, 0], [r, r], [0, rng.randint(1, 4)], [2, 2]])
                if x[0] == x[1] == 0:
                    x = [2, 0]
            elif base in ("Pol", "PolBenchmark"):
                x = rng.choice([[2, 4], [rng.randint(-6, 6), rng.randint(-6, 6)]])
            elif base == "ConstBnh":
                x = [rng.randint(0, 10), rng.randint(0, 6)]
            elif base == "ConstOsy":
                x = rng.choice([[rng.randint(0, 8), rng.randint(0, 8), rng.randint(2, 10), rng.randint(0, 8), rng.randint(2, 10), rng.randint(0, 20)],
                                [rng.randint(2, 10), rng.randint(1, 4), rng.randint(4, 8), 0, 6, rng.randint(7, 20)]])
            else:
                g = rng.choice([4, 12, 40])
                x = [rng.randint(-g, g) for _ in range(d)]
            how = rng.choice(["array", "array", "container"])
            b = {"op": "moeval", "f": k + 1, "x": x, "v": [], "same": True}

            def go():
                a = s.arg(x, how)
                b["v"] = [V(v) for v in f(a)]
                b["same"] = bool((numpy.asarray(a.params if how == "container" else a) == H(x)).all())
            if s.rec(b, go):
                break
    return s.steps


def moopt(rng):
    s = sess(rng)
    name = rng.choice(["ConstDeb", "ConstSrn", "ConstOsy", "ConstTnk", "ConstBnh"])
    b = {"op": "moopt", "f": 1, "name": name, "agree": True, "front": True, "better": True}

    def go():
        opp = rng.random() < .8
        f = MO[name]()
        e = tr.oppositeFunction(f) if opp else f
        x0 = array([(lo + hi) / 2. for lo, hi in f.xbound])
        lo, hi = array([l for l, _ in f.xbound]), array([h for _, h in f.xbound])
        pop = [lo + (hi - lo) * array([rng.random() for _ in lo]) for _ in range(rng.choice([8, 12]))]
        ga = ConstMultiObjectiveGA(e, x0, storeAllEvaluations=False, populationSize=len(pop), initialPopulation=pop, eliteProportion=1.0, topProportion=1.0, mutationProb=1.0, mutationStdDev=.3)
        ga.learn(rng.randint(2, 5))
        table = ga.fitnesses
        for x, rec in table.items():
            g = MO[name]()
            w = array(g(array(x, dtype=float)))
            feas, viol = g.g(array(x, dtype=float))
            v = array(rec[0])
            b["agree"] = b["agree"] and bool(rec[1]) == bool(feas) and numpy.allclose(rec[2], viol)
            b["better"] = b["better"] and numpy.allclose(v, -w)
        anyf = any(bool(r[1]) for r in table.values())
        for x in ga.bestEvaluable if isinstance(ga.bestEvaluable, list) else []:
            if anyf and not MO[name]().g(array(x, dtype=float))[0]:
                b["front"] = False
    s.rec(b, go)
    return s.steps


def helpers(rng):
    s = sess(rng)
    for _ in range(10):
        op = rng.choice(["penalize", "diags", "warp"])
        if op == "penalize":
            b = {"op": op, "x": [rng.randint(-20, 20) for _ in range(rng.randint(1, 5))], "dist": rng.choice([10, 10, 0, 3]), "v": ZERO, "same": True}

            def go():
                a = H(b["x"])
                b["v"] = V(tr.penalize(a) if b["dist"] == 10 and rng.random() < .5 else tr.penalize(a, b["dist"] / 2.))
                b["same"] = bool((a == H(b["x"])).all())
        elif op == "diags":
            b = {"op": op, "dim": rng.randint(1, 5), "root": rng.choice([1, 2, 3, 10]), "shuffled": rng.random() < .4, "v": [], "off": True}

            def go():
                alpha = float(b["root"]) ** (2 * b["dim"] - 2)
                m = numpy.asarray(tr.generateDiags(alpha, b["dim"], shuffled=True) if b["shuffled"] else tr.generateDiags(alpha, b["dim"]))
                b["off"] = m.shape == (b["dim"], b["dim"]) and bool((m == numpy.diag(numpy.diag(m))).all())
                b["v"] = [V(v) for v in numpy.diag(m)]
        else:
            b = {"op": op, "x": [rng.randint(-12, 12) for _ in range(rng.randint(1, 5))], "asym": [], "osc": [], "same": True}

            def go():
                B = tr.BBOBTransformationFunction
                a = H(b["x"])
                b["asym"] = [V(v) for v in (B.asymmetrify(a) if rng.random() < .5 else B.asymmetrify(a, .2))]
                b["osc"] = [V(v) for v in B.oscillatify(a)]
                b["same"] = bool((a == H(b["x"])).all())
        s.rec(b, go)
    return s.steps


def trace(name, steps):
    return {"name": name, "cfg": {"depth": 0}, "steps": steps}


def run(job):
    rng = job.rng
    out = []
    n = job.args["count"]
    for k in range(n):
        j = k % 16
        if j < 9:
            t = trace("functions", single(rng))
        elif j < 13:
            t = trace("multiobjective", multi(rng))
        elif j == 13:
            t = trace("spheres", spheres(rng))
        elif j == 14:
            t = trace("helpers", helpers(rng))
        else:
            t = trace("optimise", moopt(rng)) if k % 64 == 15 else trace("helpers", helpers(rng))
        t["name"] += "-%d" % k
        out.append(t)
    for r in range(job.args["bbob"]):
        for k, fn in enumerate(bbob2010.bbob_collection + bbob2010.bbob_noise_collection):
            t = trace("bbob-%d-%d" % (r, k), bbob(rng, [fn]))
            out.append(t)
    job.write("funcs", out)


def replay(job):
    rng = job.rng
    out = []
    for k, beh in enumerate(job.behaviours):
        s = sess(rng)
        for o in beh["ops"]:
            op = o["op"]
            if op == "new":
                fits = o["dim"] >= (2 if o["base"] in MIN2 else 1)
                if o["base"] == "BoundedLinear" and o["dim"] != 2:
                    continue
                e = s.new(o["base"], o["dim"], rng.random() < .4)
                if e == "AssertionError" and not fits:
                    continue
            elif op in ("translate", "rotate", "soft", "opposite"):
                e = s.wrap(op, o["f"] - 1, **{q: o[q] for q in ("o", "m", "mi", "dist", "fac") if q in o})
            elif op in ("eval", "act"):
                e = s.eval(o["f"] - 1, o["x"], "array" if op == "act" else rng.choice(["array", "container"]), op)
            elif op == "sense":
                e = s.sense(o["f"] - 1)
                if e == "AssertionError":
                    continue
            elif op == "reset":
                e = s.reset(o["f"] - 1)
            elif s.kind[o["f"] - 1] in UNB:
                continue
            else:
                e = s.opt(o["f"] - 1)
            if e:
                break
        out.append(trace("gen-%d" % k, s.steps))
    job.write("funcs_gen", out)


main({"random": run, "replay": replay})
