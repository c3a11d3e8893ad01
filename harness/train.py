"""Driver for the gradient-descent helper and the trainers (spec Train)."""
from common import *
from pybrain.auxiliary.gradientdescent import GradientDescent, NaturalGradient, IRpropPlus
from pybrain.structure import LinearLayer, TanhLayer, BiasUnit, FullConnection, FeedForwardNetwork, RecurrentNetwork
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer

M20 = 2 ** 20
BASE = {"tr": "gd", "p0": [], "alpha": M20 // 8, "mom": 0, "decay": 16, "delta0": M20 // 8, "etap": 20, "etam": 8, "dmin": M20 // 64,
        "dmax": M20, "lay": {"i": [], "o": [], "r": [], "bi": [], "bo": []}, "data": [], "nh": 0, "no": 1, "hid": "lin",
        "batch": False, "wd": 0, "batchn": 3}


def f12(v):
    return numpy.array(v) / 4096.0


def helper(rng, c):
    if c["tr"] == "nat":
        g = NaturalGradient(c["batchn"])
    else:
        g = GradientDescent()
        g.alpha, g.momentum, g.alphadecay = c["alpha"] / float(M20), c["mom"] / 16.0, c["decay"] / 16.0
        if c["tr"] == "gdr":
            g.rprop = True
            g.deltanull, g.etaplus, g.etaminus = c["delta0"] / float(M20), c["etap"] / 16.0, c["etam"] / 16.0
            g.deltamin, g.deltamax = c["dmin"] / float(M20), c["dmax"] / float(M20)
    g.init(f12(c["p0"]))
    return g


def step0(op):
    return {"op": op, "err": "", "g": [], "after": [], "ret": [], "x": [], "log": [], "final": [], "epochs": 0, "tgt": []}


def gradstep(g, grad, scale):
    s = step0("grad")
    s["g"] = grad

    def f():
        a = numpy.array(grad) / float(scale)
        r = g(a, 0.)
        s["after"] = FXL(a * scale, 1)
        return FXL(r) if r is not None else []
    s["err"], s["ret"] = guarded(f, [])
    return s


def gd(job, rng, k, tr, ops=None, cfg=None):
    c = dict(BASE)
    c["tr"] = tr
    n = rng.randint(1, 5) if tr != "nat" else rng.randint(2, 3)
    c["p0"] = [rng.randint(-32, 32) * 128 for _ in range(n)]
    c["alpha"], c["mom"], c["decay"] = M20 // rng.choice([2, 4, 8, 16]), rng.choice([0, 0, 4, 8, 14]), rng.choice([16, 16, 15, 12, 8])
    c["etap"], c["etam"] = rng.choice([17, 20, 24, 32]), rng.choice([2, 4, 8, 12])
    c["dmin"], c["dmax"] = M20 // rng.choice([128, 64, 16]), M20 // rng.choice([1, 2, 4])
    c["delta0"] = rng.choice([c["dmin"], M20 // 16, M20 // 8, M20 // 4])
    c["batchn"] = n + 1 + rng.randint(0, 1)
    if cfg:
        c.update(cfg)
    steps = []
    T = {"name": "%s-%d" % (tr, k), "cfg": c, "steps": steps}
    err, g = guarded(lambda: helper(rng, c))
    if err:
        s = step0("init")
        s["err"], s["x"] = err, c["p0"]
        steps.append(s)
        return T
    pend = []
    if ops is not None:
        for op in ops:
            steps.append(gradstep(g, op["g"], 4096))
        return T
    last = None
    for _ in range(rng.randint(4, 25)):
        if tr != "nat" and rng.random() < 0.06:
            s = step0("init")
            s["x"] = [rng.randint(-32, 32) * 128 for _ in range(n)]
            s["err"], _ = guarded(lambda: g.init(f12(s["x"])))
            steps.append(s)
        elif tr == "nat":
            for _ in range(50):
                v = [rng.randint(-4, 4) for _ in range(n)]
                if len(pend) + 1 < c["batchn"]:
                    break
                m = numpy.array(pend + [v])
                if abs(numpy.linalg.det(numpy.cov(m.T))) > 0.3:
                    break
            else:
                break
            pend = pend + [v] if len(pend) + 1 < c["batchn"] else []
            steps.append(gradstep(g, v, 1))
        else:
            if last and rng.random() < 0.5:
                v = [x * rng.choice([1, 1, -1, 0, 2, -2]) // rng.choice([1, 2]) for x in last]
                v = [max(-30000, min(30000, x)) for x in v]
            else:
                v = [rng.choice([0, rng.randint(-200, 200) * 64, rng.randint(-4, 4) * 1024]) for _ in range(n)]
            last = v
            steps.append(gradstep(g, v, 4096))
    return T


# ------------------------------------------------------------------ trainers
class Log(object):
    on = False


def recording(cls):
    class Recorded(cls):
        _log = None

        def activate(self, inpt, *a, **kw):
            if self._log is not None:
                self._log.append({"x": FXL(inpt), "p": FXL(self.params)})
            return super(Recorded, self).activate(inpt, *a, **kw)
    return Recorded


RFF, RRec = recording(FeedForwardNetwork), recording(RecurrentNetwork)


def make(rng, c, ni, rec, bi, bo):
    net = (RRec if rec else RFF)()
    net.addInputModule(LinearLayer(ni, name="in"))
    net.addOutputModule(LinearLayer(c["no"], name="out"))
    cs = {}
    if bi or bo:
        net.addModule(BiasUnit(name="bias"))
    if c["nh"]:
        net.addModule((TanhLayer if c["hid"] == "tanh" else LinearLayer)(c["nh"], name="hid"))
        cs["i"] = FullConnection(net["in"], net["hid"])
        cs["o"] = FullConnection(net["hid"], net["out"])
        if bi:
            cs["bi"] = FullConnection(net["bias"], net["hid"])
    else:
        cs["o"] = FullConnection(net["in"], net["out"])
    if bo:
        cs["bo"] = FullConnection(net["bias"], net["out"])
    ks = list(cs)
    rng.shuffle(ks)
    for k in ks:
        net.addConnection(cs[k])
    if rec and c["nh"]:
        cs["r"] = FullConnection(net["hid"], net["hid"])
        net.addRecurrentConnection(cs["r"])
    net.sortModules()
    net.params[:] = range(1, net.paramdim + 1)
    for k in cs:
        c["lay"][k] = IL(cs[k].params)
    return net


def trainer(job, rng, k, tr):
    c = dict(BASE)
    c["lay"], c["data"] = dict(BASE["lay"]), []
    c["tr"] = tr
    ni, c["no"], c["nh"], c["hid"] = rng.randint(1, 2), rng.choice([1, 1, 2]), rng.choice([0, 1, 2]), rng.choice(["lin", "tanh"])
    kind = rng.choice(["sup", "sup", "seq", "imp", "imp"])
    rec = kind != "sup" and rng.random() < 0.7
    c["batch"] = tr == "bp" and rng.random() < 0.4
    c["alpha"], c["mom"], c["decay"] = M20 // rng.choice([8, 16, 32]), rng.choice([0, 0, 4, 8, 12]), rng.choice([16, 16, 15, 12])
    c["wd"] = rng.choice([0, 0, 1, 4])
    c["etap"], c["etam"] = rng.choice([18, 20, 24]), rng.choice([4, 8, 12])
    c["dmin"], c["dmax"] = M20 // rng.choice([64, 32]), M20 // rng.choice([1, 2, 8])
    c["delta0"] = rng.choice([c["dmin"], M20 // 16, M20 // 8])
    defaults = tr == "rprop" and rng.random() < .2
    if defaults:
        c["etam"], c["dmin"], c["dmax"], c["delta0"] = 8, 1, 5 * M20, int(round(.1 * M20))
    steps = []
    T = {"name": "%s-%s-%d" % (tr, kind, k), "cfg": c, "steps": steps}
    nseq = rng.randint(1, 5)
    used = set()

    def inp():
        while True:
            x = tuple(rng.randint(-24, 24) * 128 for _ in range(ni))
            if x not in used:
                used.add(x)
                return list(x)
    for _ in range(nseq):
        ln = 1 if not rec else rng.randint(1, 4)
        w = kind == "imp"
        c["data"].append([{"x": inp(), "t": [rng.randint(-24, 24) * 128 for _ in range(c["no"])],
                           "w": [rng.randint(1, 12) * 512 if rng.random() < 0.8 else rng.choice([0, 4096]) for _ in range(c["no"])] if w else []}
                          for _ in range(ln)])
    if kind == "imp" and sum(sum(s["w"]) for q in c["data"] for s in q) < 2048:
        c["data"][0][0]["w"][0] = 4096
    nos = c["no"]
    state = {}

    def build():
        net = make(rng, c, ni, rec, rng.random() < 0.5, rng.random() < 0.5)
        c["p0"] = [rng.randint(-16, 16) * 128 for _ in range(net.paramdim)]
        net.params[:] = f12(c["p0"])
        if kind == "sup":
            ds = SupervisedDataSet(ni, nos)
            for q in c["data"]:
                ds.addSample(f12(q[0]["x"]), f12(q[0]["t"]))
        else:
            ds = (SequentialDataSet if kind == "seq" else ImportanceDataSet)(ni, nos)
            for q in c["data"]:
                ds.newSequence()
                for s in q:
                    if kind == "imp":
                        ds.addSample(f12(s["x"]), f12(s["t"]), f12(s["w"]))
                    else:
                        ds.addSample(f12(s["x"]), f12(s["t"]))
        if defaults:
            t = RPropMinusTrainer(net, dataset=ds, etaplus=c["etap"] / 16.0, weightdecay=c["wd"] / 16.0)
        elif tr == "bp":
            t = BackpropTrainer(net, ds, learningrate=c["alpha"] / float(M20), lrdecay=c["decay"] / 16.0, momentum=c["mom"] / 16.0,
                                batchlearning=c["batch"], weightdecay=c["wd"] / 16.0)
        else:
            t = RPropMinusTrainer(net, dataset=ds, etaminus=c["etam"] / 16.0, etaplus=c["etap"] / 16.0, deltamin=c["dmin"] / float(M20),
                                  deltamax=c["dmax"] / float(M20), delta0=c["delta0"] / float(M20), weightdecay=c["wd"] / 16.0)
        state.update(net=net, ds=ds, t=t)
    err, _ = guarded(build)
    if err:
        s = step0("setp")
        s["err"] = err
        if not c["p0"]:
            c["p0"] = [0]
        steps.append(s)
        return T
    net, t, ds = state["net"], state["t"], state["ds"]
    for _ in range(rng.randint(2, 8)):
        if max(abs(net.params)) > 2.5:
            break
        r = rng.random()
        s = step0("train" if r < 0.7 else rng.choice(["setp", "test", "classes"]))
        if s["op"] == "train":
            def f():
                net._log = s["log"]
                try:
                    how = rng.random()
                    s["noret"] = how > .7
                    if how < 0.7:
                        s["ret"] = FX(t.train())
                    elif how < .8:
                        t.trainEpochs()
                    elif how < .87:
                        t.trainEpochs(1)
                    elif how < .94:
                        t.trainOnDataset(ds)
                    else:
                        t.trainOnDataset(ds, 1)
                finally:
                    net._log = None
                s["final"], s["epochs"] = FXL(net.params), I(t.totalepochs) if t.epoch == t.totalepochs else -1
        elif s["op"] == "setp":
            v = [rng.randint(-16, 16) * 128 for _ in range(net.paramdim)]

            def f():
                if rng.random() < 0.5:
                    net.params[:] = f12(v)
                else:
                    net._setParameters(f12(v))
                s["final"] = FXL(net.params)
        elif s["op"] == "test":
            def f():
                s["ret"] = FX(t.testOnData() if rng.random() < 0.5 else t.testOnData(ds))
                s["final"] = FXL(net.params)
        else:
            def f():
                if kind == "imp":
                    out, tg = None, None
                    s["op"] = "test"
                    s["ret"] = FX(t.testOnData(ds))
                else:
                    out, tg = t.testOnClassData(return_targets=True)
                    s["ret"], s["tgt"] = IL(out), IL(tg)
                s["final"] = FXL(net.params)
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
    return T


def run(job):
    rng = job.rng
    n = job.args.get("count", 100)
    out = []
    if job.args["what"] == "bp":
        for k in range(n):
            r = rng.random()
            out.append(gd(job, rng, k, "gd") if r < 0.3 else gd(job, rng, k, "nat") if r < 0.38 else trainer(job, rng, k, "bp"))
    else:
        for k in range(n):
            out.append(gd(job, rng, k, "gdr") if rng.random() < 0.5 else trainer(job, rng, k, "rprop"))
    job.write("train", out)


def replay(job):
    out = []
    for k, b in enumerate(job.behaviours):
        c = b["cfg"]
        out.append(gd(job, job.rng, k, c["tr"], b["ops"], c))
    job.write("train_gen", out)


def irprop(job):
    """the third descent helper"""
    c = dict(BASE)
    c["tr"], c["p0"] = "gd", [4096, -4096]
    s = step0("grad")
    s["g"] = [4096, 4096]

    def f():
        g = IRpropPlus()
        g.init(f12(c["p0"]))
        g(f12(s["g"]), 1.0)
        return {}
    s["err"], _ = guarded(f)
    if not s["err"]:
        s["op"], s["final"] = "setp", c["p0"]
    job.write("irprop", [{"name": "IRpropPlus", "cfg": c, "steps": [s]}])


main({"random": run, "replay": replay, "irprop": irprop})
