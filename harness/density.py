"""Driver for models of the data (spec Density): restricted Boltzmann machines, deep belief networks, mixture densities."""
from common import *
from numpy import array


class Stub(object):
    """Recorded (or prescribed) draws in place of numpy's generators."""
    on, plan, used, ib = False, [], [], 0.25
    real = (numpy.random.rand, numpy.random.normal, numpy.random.randn)

    @classmethod
    def start(cls, plan, rng):
        cls.on, cls.plan, cls.used, cls.rng = True, list(plan), [], rng

    @classmethod
    def stop(cls):
        cls.on = False
        return cls.used

    @classmethod
    def take(cls, n, gauss):
        out = []
        for _ in range(n):
            if cls.plan:
                v = cls.plan.pop(0)
            elif cls.rng is None:
                v = 0
            else:
                v = int(cls.rng.gauss(0, 3000)) if gauss else cls.rng.choice([0, 4095, cls.rng.randrange(4096), cls.rng.randrange(4096)])
            cls.used.append(v)
            out.append(v / 4096.)
        return out


def rand(*shape):
    if not Stub.on:
        return Stub.real[0](*shape)
    n = int(numpy.prod(shape)) if shape else 1
    v = array(Stub.take(n, False))
    return v.reshape(shape) if shape else v[0]


def normal(loc=0., scale=1., size=None):
    if not Stub.on:
        return Stub.real[1](loc, scale, size)
    sh = numpy.broadcast(numpy.asarray(loc), numpy.asarray(scale)).shape if size is None else size
    n = int(numpy.prod(sh)) if sh != () else 1
    v = array(Stub.take(n, True)).reshape(sh)
    return loc + scale * v


def randn(*shape):
    if not Stub.on:
        return Stub.real[2](*shape)
    return numpy.zeros(shape) + Stub.ib if shape else Stub.ib


numpy.random.rand, numpy.random.normal, numpy.random.randn = rand, normal, randn

from pybrain.structure.networks.rbm import Rbm
from pybrain.structure import LinearLayer, SigmoidLayer, BiasUnit, FullConnection, FeedForwardNetwork
from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
from pybrain.unsupervised.trainers.rbm import RbmGibbsTrainerConfig, RbmBernoulliTrainer, RbmGaussTrainer
from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
from pybrain.supervised.trainers.mixturedensity import BackpropTrainerMix, RPropMinusTrainerMix
from pybrain.datasets import UnsupervisedDataSet, SupervisedDataSet

ONE = 4096.


def fl(v):
    return array([x / ONE for x in v])


def sized(v, n):
    v = numpy.asarray(v, dtype=float)
    if v.shape != (n,):
        raise Malformed("shape %s" % (v.shape,))
    return FXL(v)


def config(c):
    f = RbmGibbsTrainerConfig()
    f.batchSize = c["batch"]
    f.rWeights, f.rHidBias, f.rVisBias = c["rw"] / ONE, c["rh"] / ONE, c["rv"] / ONE
    f.weightCost, f.iniMm, f.finMm = c["cost"] / ONE, c["mm1"] / ONE, c["mm2"] / ONE
    f.mmSwitchIter, f.maxIter = c["switch"], c["iters"]
    return f


def dataset(rows, n, sup):
    if sup:
        ds = SupervisedDataSet(n, 1)
        for r in rows:
            ds.addSample(fl(r), [0.])
    else:
        ds = UnsupervisedDataSet(n)
        for r in rows:
            ds.addSample(fl(r))
    return ds


class RbmRun(object):
    def __init__(self, cfg, rng):
        self.cfg, self.rng, c = cfg, rng, cfg["c"]
        self.nv, self.nh = len(cfg["vb"]), len(cfg["hb"])
        how = cfg.get("how", 0)
        if how == 0:
            self.rbm = Rbm.fromDims(self.nv, self.nh, params=fl(cfg["W"]), biasParams=fl(cfg["hb"]))
        else:
            v, h, b = LinearLayer(self.nv), SigmoidLayer(self.nh), BiasUnit()
            con, bcon = FullConnection(v, h), FullConnection(b, h)
            con.params[:] = fl(cfg["W"])
            bcon.params[:] = fl(cfg["hb"])
            self.rbm = Rbm.fromModules(v, h, b, con, bcon)
        self.trainer = None
        self.vb = fl(cfg["vb"])

    def make(self, ds):
        K = RbmGaussTrainer if self.cfg["c"]["gauss"] else RbmBernoulliTrainer
        old = None if self.trainer is None else self.trainer.invRbm.biasParams.copy()
        self.trainer = K(self.rbm, ds, config(self.cfg["c"]))
        self.trainer.invRbm.biasParams[:] = self.vb if old is None else old

    def step(self, op):
        o = op["op"]
        if o == "train":
            batches = op["batches"]
            c = self.cfg["c"]
            if self.trainer is None:
                self.make(dataset(batches[0], self.nv, self.cfg.get("sup", False)))
            seen = []

            class Given(object):
                """the rows in exactly these batches"""
                def randomBatches(s, label, n):
                    if label != ("input" if self.cfg.get("sup") else "sample"):
                        raise Malformed("field %s" % label)
                    return (numpy.array([fl(r) for r in b]) for b in batches)
            real = op.get("own")
            if real:
                rows = [r for b in batches for r in b]
                ds = dataset(rows, self.nv, self.cfg.get("sup", False))
                get = ds.randomBatches

                def watch(*a, **k):
                    for b in get(*a, **k):
                        seen.append([FXL(r) for r in b])
                        yield b
                ds.randomBatches = watch
                self.make(ds)
            Stub.start(op["draws"], self.rng)
            try:
                if real:
                    self.trainer.train()
                else:
                    self.trainer.trainOnDataset(Given())
            finally:
                op["draws"] = Stub.stop()
            if real:
                if sorted(r for b in seen for r in b) != sorted(r for b in batches for r in b) or any(len(b) > c["batch"] for b in seen):
                    raise Malformed("batches")
                op["batches"] = seen
            return {"W": sized(self.rbm.params, self.nv * self.nh), "hb": sized(self.rbm.biasParams, self.nh),
                    "vb": sized(self.trainer.invRbm.biasParams, self.nv)}
        if o == "act":
            return {"y": sized(self.rbm.activate(fl(op["x"])), self.nh)}
        if o == "rec":
            if self.trainer is None:
                self.make(dataset([[0] * self.nv], self.nv, self.cfg.get("sup", False)))
            return {"y": sized(self.trainer.invRbm.activate(fl(op["x"])), self.nv)}
        r = self.rbm.invert()
        r.biasParams[:] = fl(op["b"])
        return {"dims": [I(r.visibleDim), I(r.hiddenDim)], "y": sized(r.activate(fl(op["x"])), self.nv)}


class DbnRun(object):
    def __init__(self, cfg, rng):
        self.cfg, self.rng, c = cfg, rng, cfg["c"]
        net = FeedForwardNetwork()
        names = cfg.get("names", 0)
        nm = lambda s: None if names == 0 else s if names == 1 else s[::-1]
        dims = [len(cfg["rows"][0])] + [len(l["hb"]) for l in cfg["layers"]]
        layers = [LinearLayer(dims[0], nm("in"))] + [SigmoidLayer(d, nm("hid%d" % i)) for i, d in enumerate(dims[1:])]
        bias = BiasUnit(nm("bias"))
        net.addInputModule(layers[0])
        net.addOutputModule(layers[-1])
        for l in layers[1:-1]:
            net.addModule(l)
        net.addModule(bias)
        self.con, self.bcon = [], []
        for i, l in enumerate(cfg["layers"]):
            a, b = FullConnection(layers[i], layers[i + 1]), FullConnection(bias, layers[i + 1])
            a.params[:] = fl(l["W"])
            b.params[:] = fl(l["hb"])
            self.con.append(a)
            self.bcon.append(b)
        for x in (self.con + self.bcon)[::-1 if names == 2 else 1]:
            net.addConnection(x)
        net.sortModules()
        self.net, self.dims = net, dims
        self.ds = dataset(cfg["rows"], dims[0], cfg.get("sup", False))
        self.trainer = None

    def make(self, epochs=1):
        f = config(self.cfg["c"])
        f.batchSize = len(self.cfg["rows"]) + 1
        self.trainer = DeepBeliefTrainer(self.net, self.ds, epochs=epochs, cfg=f, distribution="gauss" if self.cfg["c"]["gauss"] else "bernoulli")

    def step(self, op):
        o = op["op"]
        if o == "train":
            self.make(op["epochs"])
            Stub.ib = self.cfg["c"]["ib"] / ONE
            Stub.start(op["draws"], self.rng)
            try:
                self.trainer.train()
            finally:
                op["draws"] = Stub.stop()
            t = self.trainer
            if len(t.rbms) != len(self.con) or len(t.invRbms) != len(self.con):
                raise Malformed("number of machines")
            d = self.dims
            return {"W": [sized(c.params, d[i] * d[i + 1]) for i, c in enumerate(self.con)], "hb": [sized(c.params, d[i + 1]) for i, c in enumerate(self.bcon)],
                    "vb": [sized(r.biasParams, d[i]) for i, r in enumerate(t.invRbms)]}
        if o == "act":
            return {"y": sized(self.net.activate(fl(op["x"])), self.dims[-1])}
        if o == "piece":
            if self.trainer is None:
                self.make()
            rs = list(self.trainer.iterRbms())
            return {"count": len(rs), "y": sized(rs[op["k"] - 1].activate(fl(op["x"])), self.dims[op["k"]])}
        self.net._setParameters(self.net.params * .5)
        return {}


class MixRun(object):
    def __init__(self, cfg, rng):
        self.cfg = cfg
        d = len(cfg["W"]) // len(cfg["b"])
        net = FeedForwardNetwork()
        i, o, b = LinearLayer(d), MixtureDensityLayer(cfg["n"], mix=cfg["K"]), BiasUnit()
        net.addInputModule(i)
        net.addOutputModule(o)
        net.addModule(b)
        self.con, self.bcon = FullConnection(i, o), FullConnection(b, o)
        self.con.params[:] = fl(cfg["W"])
        self.bcon.params[:] = fl(cfg["b"])
        net.addConnection(self.con)
        net.addConnection(self.bcon)
        net.sortModules()
        self.net, self.d = net, d

    def step(self, op):
        if op["op"] == "act":
            return {"y": sized(self.net.activate(fl(op["x"])), len(self.cfg["b"]))}
        ds = SupervisedDataSet(self.d, self.cfg["n"])
        for s in op["data"]:
            ds.addSample(fl(s["x"]), fl(s["t"]))
        if self.cfg["rprop"]:
            t = RPropMinusTrainerMix(self.net, dataset=ds)
        else:
            t = BackpropTrainerMix(self.net, dataset=ds, learningrate=self.cfg["rate"] / ONE, batchlearning=len(op["data"]) > 1)
        e = t.train()
        return {"e": FX(e), "W": sized(self.con.params, len(self.cfg["W"])), "b": sized(self.bcon.params, len(self.cfg["b"]))}


RUN = {"rbm": RbmRun, "dbn": DbnRun, "mix": MixRun}


def run(name, cfg, ops, rng):
    steps, box = [], []
    err, _ = guarded(lambda: box.append(RUN[cfg["kind"]](cfg, rng)))
    for op in ops:
        op = json.loads(json.dumps(op))
        e, r = (err, None) if err else guarded(lambda: box[0].step(op))
        res = {"err": e}
        res.update(r or {})
        op["res"] = res
        steps.append(op)
        if e:
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def replay(job):
    out = []
    for i, b in enumerate(job.behaviours):
        cfg = b["cfg"]
        cfg.pop("ops", None)
        cfg.update(how=i % 2, sup=i % 3 == 1, names=i % 3)
        out.append(run("b%d" % i, cfg, b["ops"], None))
    job.write("replay", out)


def rnd(job):
    rng, out = job.rng, []

    def vec(n, m=8192, q=64):
        return [rng.randrange(-m, m + 1, q) for _ in range(n)]

    def row(n):
        return [rng.choice([0, 4096]) for _ in range(n)] if rng.random() < .7 else vec(n, 4096)

    def mkc():
        return {"gauss": rng.random() < .35, "iters": rng.choice([1, 1, 2, 3, 4]), "switch": rng.choice([0, 1, 2, 3]), "mm1": rng.choice([0, 1024, 2048]), "mm2": rng.choice([2048, 3072, 3584]),
                "rw": rng.choice([512, 1024, 2048, 4096]), "rh": rng.choice([512, 1024, 2048]), "rv": rng.choice([512, 1024, 2048]),
                "cost": rng.choice([0, 64, 512, 1024]), "ib": rng.choice([0, 1024, -2048]), "batch": rng.choice([1, 2, 3, 10])}
    for i in range(job.args["count"]):
        kind = rng.choice(["rbm", "rbm", "dbn", "mix", "mix"])
        if kind == "rbm":
            nv, nh = rng.randint(1, 4), rng.randint(1, 3)
            cfg = {"kind": kind, "c": mkc(), "W": vec(nv * nh), "hb": vec(nh, 4096), "vb": vec(nv, 4096), "how": rng.randrange(2), "sup": rng.random() < .4}
            if cfg["c"]["gauss"]:   # moderate steps: large ones amplify rounding errors
                cfg["c"].update(iters=min(2, cfg["c"]["iters"]), rw=512, rv=512, mm2=2048, batch=10)
            ops = []
            for _ in range(rng.randint(2, 5)):
                w = rng.random()
                if w < .5:
                    ops.append({"op": "train", "batches": [[row(nv) for _ in range(rng.randint(1, 3))] for _ in range(1 if cfg["c"]["gauss"] else rng.randint(1, 2))], "draws": [], "own": rng.random() < .5})
                elif w < .65:
                    ops.append({"op": "act", "x": vec(nv)})
                elif w < .8:
                    ops.append({"op": "rec", "x": vec(nh)})
                else:
                    ops.append({"op": "inv", "x": vec(nh), "b": vec(nv)})
        elif kind == "dbn":
            dims = [rng.randint(1, 3) for _ in range(rng.choice([2, 3, 3, 4]))]
            cfg = {"kind": kind, "c": mkc(), "rows": [row(dims[0]) for _ in range(rng.randint(1, 3))],
                   "layers": [{"W": vec(a * b), "hb": vec(b, 4096)} for a, b in zip(dims, dims[1:])], "sup": rng.random() < .5, "names": rng.randrange(3)}
            cfg["c"]["iters"] = min(cfg["c"]["iters"], 2)
            ops = []
            for _ in range(rng.randint(2, 4)):
                w = rng.random()
                if w < .4:
                    ops.append({"op": "train", "epochs": rng.choice([0, 1, 1, 2]), "draws": []})
                elif w < .65:
                    ops.append({"op": "act", "x": vec(dims[0])})
                elif w < .85:
                    k = rng.randint(1, len(dims) - 1)
                    ops.append({"op": "piece", "k": k, "x": vec(dims[k - 1])})
                else:
                    ops.append({"op": "halve"})
        else:
            d, K, n = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3)
            u = K * (n + 2)
            cfg = {"kind": kind, "K": K, "n": n, "rate": rng.choice([128, 256, 512]), "rprop": rng.random() < .25, "W": vec(u * d, 3072), "b": vec(u, 3072)}
            for k in range(K):   # moderate deviations
                cfg["b"][K + k] = rng.randrange(-1536, 2048, 64)
                for q in range(d):
                    cfg["W"][(K + k) * d + q] = rng.randrange(-1024, 1025, 64)
            ops = []
            for _ in range(1 if cfg["rprop"] else rng.randint(1, 3)):
                if rng.random() < .7:
                    ops.append({"op": "epoch", "data": [{"x": vec(d, 4096), "t": vec(n, 6144)} for _ in range(rng.choice([1, 1, 2, 3]))]})
                else:
                    ops.append({"op": "act", "x": vec(d, 4096)})
        out.append(run("r%d" % i, cfg, ops, rng))
    job.write("random", out)


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
