"""Driver for early stopping, cross-validation and validation measures (spec Validate)."""
from common import *
import copy
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork, RecurrentNetwork, IdentityConnection, LinearConnection
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
from pybrain.supervised.trainers.trainer import Trainer
from pybrain.tools.validation import Validator, ModuleValidator, CrossValidator, ClassificationHelper, SequenceHelper, testOnSequenceData

CFG = {"maxE": 0, "cont": 1, "v0": 0}


class Exhausted(Exception):
    pass


class OneWeight(FeedForwardNetwork):
    """y = w x[0]; x[1] identifies the row"""
    log = None

    def activate(self, inpt, *a, **kw):
        if self.log is not None:
            self.log.append(I(inpt[1]))
        return super(OneWeight, self).activate(inpt, *a, **kw)


def oneweight(w):
    n = OneWeight()
    n.addInputModule(LinearLayer(2, name="i"))
    n.addOutputModule(LinearLayer(1, name="o"))
    n.addConnection(FullConnection(n["i"], n["o"], inSliceTo=1))
    n.sortModules()
    n.params[:] = w
    return n


def rows(rng, ids, seq=False):
    if seq:
        ds = SequentialDataSet(2, 1)
        for i in ids:
            ds.newSequence()
            ds.addSample([1., i], [0.])
    else:
        ds = SupervisedDataSet(2, 1)
        for i in ids:
            ds.addSample([1., i], [0.])
    return ds


def idsof(ds):
    return [I(x[1]) for x in ds["input"]]


def tuc(rng, k, c, vs, n=None, base=BackpropTrainer):
    """vs: weights in units of 1/64 after every epoch (the validation error is w^2 / 2)"""
    s = {"op": "tuc", "err": "", "out": False, "v": [], "t": [], "w": [], "trained": [[]], "final": 0, "rt": [], "rv": [], "valid": [], "n": n or rng.randint(4, 30),
         "given": [], "prop": 4, "validated": True, "ds": True, "refused": False}
    net = oneweight(vs[0] / 64.)
    T = {"name": "tuc-%s-%d" % (base.__name__, k), "cfg": dict(CFG, **c), "steps": [s]}
    T["cfg"]["v0"] = vs[0] * vs[0]
    s["v"] = [v * v for v in vs[1:]]
    s["w"] = list(vs[1:])
    terr = [rng.randint(0, 50) for _ in vs[1:]]
    s["t"] = terr
    seen, calls = [], []

    class Scripted(base):
        def train(self):
            e = len(seen)
            seen.append(idsof(self.ds))
            calls.append([])
            if e >= len(terr):
                raise Exhausted()
            if rng.random() < .5:
                self.module.params[:] = vs[e + 1] / 64.
            else:
                self.module._setParameters(numpy.array([vs[e + 1] / 64.]))
            return terr[e] / 64.

        def testOnData(self, *a, **kw):
            net.log = []
            try:
                return super(Scripted, self).testOnData(*a, **kw)
            finally:
                calls[-1].append(net.log)
                net.log = None
    calls.append([])
    seq = rng.random() < 0.3

    def f():
        ids = list(range(1, s["n"] + 1))
        ds = rows(rng, ids, seq)
        t = Scripted(net, dataset=ds)
        kw = {}
        if c["maxE"]:
            kw["maxEpochs"] = c["maxE"]
        kw["continueEpochs"] = c["cont"]
        r = rng.random()
        if seq or r < 0.3:
            m = rng.randint(1, s["n"] - 1)
            rng.shuffle(ids)
            a, b = rows(rng, ids[:m], seq), rows(rng, ids[m:], seq)
            s["given"] = ids[m:]
            kw["trainingData"], kw["validationData"] = a, b
        else:
            s["prop"] = rng.choice([4, 4, 8, 12, 2])
            if s["n"] * s["prop"] < 16 or s["n"] * (16 - s["prop"]) < 16:
                s["n"] += 12
                ids = list(range(1, s["n"] + 1))
                ds = rows(rng, ids)
                t.setData(ds)
            if s["prop"] != 4 or r < 0.6:
                kw["validationProportion"] = s["prop"] / 16.
        args = ()
        if r > 0.8:
            t.setData(None)
            t.ds = rows(rng, ids)
            kw["dataset"] = ds
            own = t.ds
        try:
            rt, rv = t.trainUntilConvergence(**kw)
            s["rt"] = [SC(x, 6) for x in rt]
            s["rv"] = [SC(2 * x, 12) for x in rv]
            s["final"] = SC(net.params[0], 6)
            s["ds"] = t.ds is ds or (r > 0.8 and t.ds is own)
        except Exhausted:
            s["out"] = True
        s["trained"] = seen
        s["valid"] = sorted(set(x for q in calls for l in q for x in l))
        # every validation looks at each row of the validation part the same number of times
        s["validated"] = all(sorted(l) == s["valid"] for q in calls for l in q if set(l) <= set(s["valid"])) and len(calls[0]) > 0
    s["err"], _ = guarded(f)
    return T


def small(rng, k):
    n = rng.randint(1, 3)
    s = {"op": "small", "err": "", "refused": False}
    net = oneweight(1.)

    def f():
        t = BackpropTrainer(net, rows(rng, range(1, n + 1)))
        try:
            t.trainUntilConvergence(maxEpochs=1, validationProportion=0.125 if n > 1 else .5)
        except ValueError:
            s["refused"] = True
    # 1 - 1/8 of n <= 3 rows: floor(n * 7/8) < n, so one part may be empty only when n = 1
    if n > 1:
        s["refused"] = True
        return {"name": "small-%d" % k, "cfg": CFG, "steps": [s]}
    s["err"], _ = guarded(f)
    return {"name": "small-%d" % k, "cfg": CFG, "steps": [s]}


# ------------------------------------------------------------ cross-validation
CV = {}


class CVTrainer(Trainer):
    """records what it is trained on; every epoch adds one to the weight"""

    def __init__(self, module, dataset=None):
        Trainer.__init__(self, module)
        self.setData(dataset)
        self.fresh = True

    def train(self):
        if self.fresh:
            CV["train"].append([I(x[1]) for x in self.ds["input"]])
            CV["targets"] &= all(I(t[0]) == 3 * I(x[1]) + 1 for x, t in zip(self.ds["input"], self.ds["target"]))
            CV["start"].append(I(self.module.params[0]))
            CV["epochs"].append(0)
            self.fresh = False
        CV["epochs"][-1] += 1
        self.module.params[:] = self.module.params + 1


def cv(rng, k):
    n = rng.randint(3, 24)
    folds = rng.randint(2, min(n - 1, 7))
    want = rng.choice([1, 1, 2, 3])
    perf = [rng.randint(0, 64) for _ in range(folds)]
    CV.clear()
    CV.update(train=[], test=[], start=[], epochs=[], seen=[], targets=True)
    s = {"op": "cv", "err": "", "n": n, "folds": folds, "want": want, "perf": perf, "w0": rng.randint(-5, 5), "ret": 0, "after": 0}

    def val(module, ds):
        CV["test"].append([I(x[1]) for x in ds["input"]])
        CV["targets"] &= all(I(t[0]) == 3 * I(x[1]) + 1 for x, t in zip(ds["input"], ds["target"]))
        CV["seen"].append(I(module.params[0]))
        return float(perf[len(CV["test"]) - 1])

    def f():
        net = oneweight(float(s["w0"]))
        ds = SupervisedDataSet(2, 1)
        for i in range(1, n + 1):
            ds.addSample([1., i], [3 * i + 1])
        t = CVTrainer(net, ds if rng.random() < .5 else None)
        kw = {"n_folds": folds, "valfunc": val}
        if want > 1:
            kw["max_epochs"] = want
        c = CrossValidator(t, ds, **kw)
        s["ret"] = FX(c.validate())
        s["after"] = I(net.params[0])
    s["err"], _ = guarded(f)
    s.update(CV)
    return {"name": "cv-%d" % k, "cfg": CFG, "steps": [s]}


# ------------------------------------------------------------------- measures
def resp(a, r, d):
    net = RecurrentNetwork() if r else FeedForwardNetwork()
    net.addInputModule(LinearLayer(d, name="i"))
    net.addOutputModule(LinearLayer(d, name="o"))
    c = LinearConnection(net["i"], net["o"])
    net.addConnection(c)
    if r:
        q = LinearConnection(net["o"], net["o"])
        net.addRecurrentConnection(q)
    net.sortModules()
    c.params[:] = a
    if r:
        q.params[:] = r
    return net


def measures(rng, k):
    steps = []
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(["class", "ess", "mse", "onehot", "module", "module", "seqs", "testseq", "testseq", "epochs"])
        s = {"op": what, "err": ""}
        n = rng.randint(1, 9)
        if what in ("class", "ess", "mse"):
            s["o"], s["t"], s["ret"], s["w"] = [rng.randint(-3, 3) for _ in range(n)], [rng.randint(-3, 3) for _ in range(n)], 0, []
            if rng.random() < .6:
                s["o"] = [o if rng.random() < .5 else t for o, t in zip(s["o"], s["t"])]
            if what == "class":
                def f():
                    o, t = s["o"], s["t"]
                    if rng.random() < .7:
                        o, t = numpy.array(o), numpy.array(t)
                    s["ret"] = FX(Validator.classificationPerformance(o, t))
            elif what == "ess":
                def f():
                    s["ret"] = I(Validator.ESS(numpy.array(s["o"]), numpy.array(s["t"])))
            else:
                if rng.random() < .6:
                    s["w"] = [rng.randint(0, 4) for _ in range(n)]
                    s["w"][0] = 2

                def f():
                    o, t, w = numpy.array(s["o"], float), numpy.array(s["t"], float), numpy.array(s["w"], float)
                    if n % 2 == 0 and rng.random() < .6:
                        o, t = o.reshape(2, -1), t.reshape(2, -1)
                        if s["w"]:
                            w = w.reshape(2, -1)
                    s["ret"] = FX(Validator.MSE(o, t, w) if s["w"] else Validator.MSE(o, t))
        elif what == "onehot":
            d = rng.randint(1, 4)
            s["m"], s["o"] = [[rng.randint(-4, 9) for _ in range(d)] for _ in range(n)], []

            def f():
                s["o"] = IL(ClassificationHelper.oneOfManyToClasses(numpy.array(s["m"])))
        elif what == "epochs":
            s["count"], s["want"], s["ds"] = 0, rng.randint(0, 5), False

            def f():
                net = oneweight(0.)
                d1, d2 = rows(rng, [1, 2]), rows(rng, [3])
                cnt = []

                class C(BackpropTrainer):
                    def train(self):
                        cnt.append(self.ds)
                t = C(net, d1)
                if rng.random() < .5:
                    t.trainOnDataset(d2, s["want"])
                    want = d2
                else:
                    t.trainEpochs(s["want"])
                    want = d1
                s["count"], s["ds"] = len(cnt), all(x is want for x in cnt)
        else:
            d = rng.randint(1, 3) if what != "testseq" else rng.randint(2, 3)
            kind = rng.choice(["sup", "seq", "imp"]) if what == "module" else rng.choice(["seq", "imp"])
            lens = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
            n = sum(lens)
            s["lens"], s["w"], s["y"], s["mse"], s["perf"], s["ret"] = lens, [], [], 0, -1, 0
            s["starts"], s["ends"], s["imp"] = [], [], []
            s["a"], s["r"] = rng.choice([1, 2, -1]), rng.choice([0, 1, -1])
            s["x"] = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(n)]
            s["t"] = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(n)]
            if kind == "imp":
                s["w"] = [[rng.randint(0, 3) for _ in range(d)] for _ in range(n)]
                s["w"][0][0] = 1
            if kind == "sup":
                s["r"], s["lens"] = 0, []
            if s["r"] == 0:
                net = resp(s["a"], 0, d)
            else:
                net = resp(s["a"], s["r"], d)
            if what == "testseq":
                def summed():
                    y, st, q = [], 0, []
                    for l in lens:
                        tot, prev = numpy.zeros(d), numpy.zeros(d)
                        for z in range(l):
                            prev = s["a"] * numpy.array(s["x"][st + z]) + s["r"] * prev
                            tot = tot + prev
                        q.append(tot)
                        st += l
                    return q
                for _ in range(200):
                    if all(sorted(q)[-1] > sorted(q)[-2] for q in summed()):
                        break
                    s["x"] = [[rng.randint(-5, 5) for _ in range(d)] for _ in range(n)]
                else:
                    continue
                s["t"] = [[int(j == z) for j in range(d)] for z in [rng.randrange(d) for _ in range(n)]]

            def f():
                if kind == "sup":
                    ds = SupervisedDataSet(d, d)
                    for x, t in zip(s["x"], s["t"]):
                        ds.addSample(x, t)
                else:
                    ds = (SequentialDataSet if kind == "seq" else ImportanceDataSet)(d, d)
                    at = 0
                    for l in lens:
                        ds.newSequence()
                        for z in range(at, at + l):
                            if kind == "imp":
                                ds.addSample(s["x"][z], s["t"][z], s["w"][z])
                            else:
                                ds.addSample(s["x"][z], s["t"][z])
                        at += l
                if what == "module":
                    if rng.random() < .5:
                        net.activate([7.] * d)
                    s["y"] = IM(ModuleValidator.calculateModuleOutput(net, ds))
                    s["mse"] = FX(ModuleValidator.MSE(net, ds))
                    if kind != "imp" and d == 1:
                        s["perf"] = FX(ModuleValidator.classificationPerformance(net, ds))
                elif what == "seqs":
                    s["starts"], s["ends"] = IL(SequenceHelper.getSequenceStarts(ds)), IL(SequenceHelper.getSequenceEnds(ds))
                    s["imp"] = IL(SequenceHelper.getSequenceEndsImportance(ds))
                else:
                    s["ret"] = FX(testOnSequenceData(net, ds))
        s["err"], _ = guarded(f)
        steps.append(s)
    return {"name": "measures-%d" % k, "cfg": CFG, "steps": steps}


def run(job):
    rng, out = job.rng, []
    for k in range(job.args["count"]):
        r = rng.random()
        if r < 0.3:
            c = {"maxE": rng.choice([0, 0, 1, 2, 3, 5, 9]), "cont": rng.choice([1, 2, 3, 4, 10])}
            m = rng.randint(2, 40)
            style = rng.choice(["rand", "rand", "down", "up", "flat"])
            vs = [rng.randint(1, 12) for _ in range(m)]
            if style == "down":
                vs = sorted(vs, reverse=True)
            elif style == "up":
                i = rng.randrange(m)
                vs = sorted(vs[:i], reverse=True) + sorted(vs[i:])
            elif style == "flat":
                i = rng.randrange(m)
                vs[i:] = [vs[i]] * (m - i)
            vs = [v * rng.choice([1, 1, -1]) for v in vs]
            out.append(tuc(rng, k, c, vs, base=rng.choice([BackpropTrainer, RPropMinusTrainer])))
        elif r < 0.32:
            out.append(small(rng, k))
        elif r < 0.55:
            out.append(cv(rng, k))
        else:
            m = measures(rng, k)
            if m["steps"]:
                out.append(m)
    job.write("validate", out)


def replay(job):
    out = []
    for k, b in enumerate(job.behaviours):
        c = b["cfg"]
        f = job.rng.choice([1, 3, 5])
        out.append(tuc(job.rng, k, {"maxE": c["maxE"], "cont": c["cont"]}, [f * c["v0"]] + [f * o["v"] for o in b["ops"]]))
    job.write("validate_gen", out)


main({"random": run, "replay": replay})
