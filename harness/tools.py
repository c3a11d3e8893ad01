"""Driver for the tools around training (spec Tools)."""
from common import *
import shutil, struct, tempfile
from numpy import array
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ClassificationDataSet, SequenceClassificationDataSet
from pybrain.structure import LinearLayer, BiasUnit, FullConnection, FeedForwardNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.tools.neuralnets import NNregression, NNclassifier
from pybrain.tools.datasettools import convertSequenceToTimeWindows, DataSetNormalizer
from pybrain.tools.filehandling import getAllFilesIn, pickleDumpDict, pickleReadDict, addToDictFile
from pybrain.tools.svmdata import SVMData
from pybrain.tools.datasets.mnist import makeMnistDataSets
from pybrain.tools.customxml import NetworkReader

ONE = 4096.


class Scripted(BackpropTrainer):
    """Instead of learning, takes the next parameter of a script."""
    def trainEpochs(self, epochs=1, *a, **k):
        self.blocks.append(I(epochs))
        self.setp(self.script[(len(self.blocks) - 1) % len(self.script)])


class NN(object):
    def __init__(self, cfg, tmp, rng):
        self.cfg, self.tmp = cfg, tmp
        reg = cfg["reg"]
        mk = self.data
        args = {"maxepochs": cfg["max"], "epoinc": cfg["inc"], "hidden": 2}
        if cfg["tds"]:
            args["TDS"] = mk(cfg["tds"])
        if cfg["vds"]:
            args["VDS"] = mk(cfg["ds"])
        self.ds = mk(cfg["ds"])
        self.nt = (NNregression if reg else NNclassifier)(self.ds, **args)
        if cfg.get("late"):
            self.nt.set(epoinc=cfg["inc"])
        self.net = None

    def data(self, pairs):
        if self.cfg["reg"]:
            ds = SupervisedDataSet(1, 1)
            for x, t in pairs:
                ds.addSample([x], [t])
        else:
            ds = ClassificationDataSet(1, 1, nb_classes=2)
            for x, t in pairs:
                ds.addSample([x], [t])
        return ds

    def simple(self):
        """The network the script steers."""
        reg = self.cfg["reg"]
        net = FeedForwardNetwork()
        i, o, b = LinearLayer(1), LinearLayer(1 if reg else 2), BiasUnit()
        c, d = FullConnection(i, o), FullConnection(b, o)
        net.addInputModule(i)
        net.addOutputModule(o)
        net.addModule(b)
        net.addConnection(c)
        net.addConnection(d)
        net.sortModules()
        c.params[:] = 0 if reg else [0., 1.]
        d.params[:] = 0
        self.net = net
        if reg:
            self.setp = lambda p: c.params.__setitem__(0, p)
            self.getp = lambda: I(c.params[0])
        else:
            self.setp = lambda p: d.params.__setitem__(0, p)
            self.getp = lambda: I(d.params[0])
            self.nt._convertAllDataToOneOfMany()

    def step(self, op):
        nt = self.nt
        if op["op"] == "run":
            if self.net is None:
                self.simple()
            nt.Trainer = Scripted(self.net, dataset=nt.DS)
            nt.Trainer.blocks, nt.Trainer.script, nt.Trainer.setp = [], op["script"], self.setp
            nt.runTraining(convergence=op["conv"]) if op["conv"] or len(op["script"]) % 2 else nt.runTraining()
            x, y, v = nt.trainCurve
            return {"xs": IL(x), "ys": FXL(y), "vs": FXL(v), "blocks": nt.Trainer.blocks, "p": self.getp()}
        if op["op"] == "curve":
            f = os.path.join(self.tmp, "curve.csv")
            nt.saveTrainingCurve(f)
            with open(f, newline="") as h:
                rows = [l.strip().split(",") for l in h.read().split("\r\n") if l.strip()]
            return {"rows": [FXL([float(v) for v in r]) for r in rows]}
        ds = SupervisedDataSet(op["i"], op["n"]) if self.cfg["reg"] else ClassificationDataSet(op["i"], 1, nb_classes=op["n"])
        for c in op["cls"]:
            ds.addSample([c] * op["i"], [0] * op["n"] if self.cfg["reg"] else [c])
        t = (NNregression if self.cfg["reg"] else NNclassifier)(ds)
        t.setupNN(trainer=BackpropTrainer, hidden=op["h"])
        net = t.Trainer.module
        hid = [m for m in net.modules if m not in net.inmodules and m not in net.outmodules and not isinstance(m, BiasUnit)]
        f = os.path.join(self.tmp, "net.xml")
        t.saveNetwork(f)
        again = NetworkReader.readFrom(f)
        x = array([.5, -1., 2.][:op["i"]])
        same = bool(numpy.allclose(again.activate(x), net.activate(x)))
        if not self.cfg["reg"] and (abs(sum(net.activate(x)) - 1) > 1e-6 or [I(c) for c in ds["class"].flatten()] != op["cls"]):
            raise Malformed("class probabilities")
        return {"dims": [I(net.indim), I(hid[0].dim), I(net.outdim)], "params": I(len(net.params)), "same": same, "ds": t.Trainer.ds is ds,
                "tgt": [] if self.cfg["reg"] else IM(ds["target"])}


class Win(object):
    def __init__(self, cfg, tmp, rng):
        pass

    def step(self, op):
        d, w = len(op["seqs"][0][0]["x"]), op["w"]
        cls = op.get("cls", False)
        ds = SequenceClassificationDataSet(d, 1, nb_classes=3) if cls else SequentialDataSet(d, len(op["seqs"][0][0]["t"]))
        for s in op["seqs"]:
            ds.newSequence()
            for x in s:
                ds.addSample(x["x"], x["t"])
        before = [a.copy() for a in (ds["input"], ds["target"], ds["sequence_index"])]
        r = convertSequenceToTimeWindows(ds, ClassificationDataSet if cls else SupervisedDataSet, w)
        if I(r.indim) != d * w:
            raise Malformed("dimension")
        after = (ds["input"], ds["target"], ds["sequence_index"])
        return {"w": [{"x": IL(a), "t": IL(b)} for a, b in zip(r["input"], r["target"])], "same": all(numpy.array_equal(a, b) for a, b in zip(before, after))}


class Norm(object):
    def __init__(self, cfg, tmp, rng):
        self.n, self.f = DataSetNormalizer(meanstd=cfg["meanstd"]), os.path.join(tmp, "norm")

    def ds(self, rows):
        ds = SupervisedDataSet(len(rows[0]), 1)
        for r in rows:
            ds.addSample([v / ONE for v in r], [7.])
        return ds

    def step(self, op):
        o = op["op"]
        if o == "calc":
            ds = self.ds(op["data"])
            keep = ds["input"].copy()
            if (op["lo"], op["hi"]) == (-4096, 4096):
                self.n.calculate(ds)
            else:
                self.n.calculate(ds, bounds=[op["lo"] / ONE, op["hi"] / ONE])
            if not numpy.array_equal(keep, ds["input"]):
                raise Malformed("data changed")
            return {"p1": FXL(self.n.par1), "p2": FXL(self.n.par2)}
        if o == "apply":
            ds = self.ds(op["data"])
            self.n.normalize(ds)
            if len(ds) != len(op["data"]) or list(ds["target"].flatten()) != [7.] * len(ds):
                raise Malformed("targets")
            return {"y": [FXL(r) for r in ds["input"]]}
        if o == "pattern":
            return {"y": FXL(self.n.normalizePattern(array([v / ONE for v in op["x"]])))}
        self.n.save(self.f)
        self.n = DataSetNormalizer(self.f)
        return {"p1": FXL(self.n.par1), "p2": FXL(self.n.par2), "lo": FX(self.n.newmin), "hi": FX(self.n.newmax)}


class Files(object):
    def __init__(self, cfg, tmp, rng):
        self.d = os.path.join(tmp, "dicts")
        os.mkdir(self.d)
        with open(os.path.join(self.d, "other.txt"), "w") as f:
            f.write("x")

    def step(self, op):
        o = op["op"]
        p = os.path.join(self.d, "t_" + op.get("n", ""))
        if o == "add":
            addToDictFile(p, op["k"], op["d"])
            return {}
        if o == "dump":
            return {"ok": bool(pickleDumpDict(p, {e["n"]: list(e["v"]) for e in op["v"]}))}
        if o == "read":
            v = pickleReadDict(p)
            return {"v": [{"n": k, "v": IL(v[k])} for k in v]}
        return {"v": [s[2:] for s in getAllFilesIn(self.d, tag="t_")]}


class Data(object):
    def __init__(self, cfg, tmp, rng):
        self.tmp, self.k, self.obj = tmp, 0, None

    def step(self, op):
        self.k += 1
        o = op["op"]
        if o == "svm":
            f = os.path.join(self.tmp, "f%d.svm" % self.k)
            with open(f, "w") as h:
                for s in op["s"]:
                    h.write("%d %s\n" % (s["y"], " ".join("%d:%r" % (i, v / ONE) for i, v in s["f"])))
            return self.load(op, f)
        if o == "raw":
            f = os.path.join(self.tmp, "data%d" % self.k)
            with open(f, "w") as h:
                for x in op["x"]:
                    h.write(" ".join(repr(v / ONE) for v in x) + "\n")
            with open(os.path.join(self.tmp, "targets%d" % self.k), "w") as h:
                for x in op["t"]:
                    h.write(" ".join(map(str, x)) + "\n")
            return self.load(op, f)
        d = os.path.join(self.tmp, "mnist%d" % self.k)
        os.mkdir(d)
        for pre, part in (("train", "train"), ("t10k", "test")):
            with open(os.path.join(d, pre + "-labels-idx1-ubyte"), "wb") as h:
                h.write(struct.pack(">ii", 2049, len(op[part])) + bytes(s["y"] for s in op[part]))
            with open(os.path.join(d, pre + "-images-idx3-ubyte"), "wb") as h:
                h.write(struct.pack(">iiii", 2051, len(op[part]), 28, 28))
                for s in op[part]:
                    img = [0] * 784
                    for i, v in s["f"]:
                        img[i] = v
                    h.write(bytes(img))
        tr, te = makeMnistDataSets(d)

        def seen(ds):
            out = []
            for x, t in zip(ds["input"], ds["target"]):
                hot = [i for i in range(len(t)) if t[i]]
                if len(t) != 10 or len(x) != 784 or len(hot) != 1 or t[hot[0]] != 1:
                    raise Malformed("sample")
                out.append({"y": hot[0], "f": [[i, I(x[i])] for i in range(784) if x[i]]})
            return out
        return {"train": seen(tr), "test": seen(te)}

    def load(self, op, f):
        if op.get("again") and self.obj is not None:
            self.obj.loadData(f)
        else:
            self.obj = SVMData(f)
        s = self.obj
        y = IL(s["target"])
        if IL([v for t in s.getTargets() for v in t]) != y or len(s) != len(y) or s.getFileName() != f:
            raise Malformed("targets")
        h = s.getClassHistogram()
        return {"x": [FXL(r) for r in s["input"]], "y": y, "n": I(s.getNbSamples()), "c": I(s.getNbClasses()), "h": [[I(k), I(h[k])] for k in h]}


RUN = {"nn": NN, "win": Win, "norm": Norm, "files": Files, "data": Data}


def run(name, cfg, ops, rng):
    steps, box = [], []
    tmp = tempfile.mkdtemp(dir=os.getcwd())
    try:
        err, _ = guarded(lambda: box.append(RUN[cfg["kind"]](cfg, tmp, rng)))
        for op in ops:
            op = json.loads(json.dumps(op))
            e, r = (err, None) if err else guarded(lambda: box[0].step(op))
            res = {"err": e}
            res.update(r or {})
            op["res"] = res
            steps.append(op)
            if e:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"name": name, "cfg": cfg, "steps": steps}


def replay(job):
    out = []
    for i, b in enumerate(job.behaviours):
        cfg = b["cfg"]
        cfg.pop("ops", None)
        out.append(run("b%d" % i, cfg, b["ops"], None))
    job.write("replay", out)


def rnd(job):
    rng, out = job.rng, []
    ri = rng.randint

    def vec(n, m=16384, q=256):
        return [rng.randrange(-m, m + 1, q) for _ in range(n)]
    for i in range(job.args["count"]):
        kind = rng.choice(["nn", "nn", "win", "norm", "norm", "files", "data"])
        if kind == "nn":
            reg = rng.random() < .5
            pairs = lambda: [[ri(0, 4), ri(-3, 3) if reg else ri(0, 1)] for _ in range(rng.choice([1, 2, 4]))]
            cfg = {"kind": kind, "reg": reg, "inc": rng.choice([1, 2, 5]), "max": ri(0, 12), "ds": pairs(), "tds": pairs() if rng.random() < .7 else [], "vds": rng.random() < .6}
            ops = []
            for _ in range(ri(1, 3)):
                ops.append({"op": "run", "conv": rng.choice([0, 1, 2, 3]), "script": [ri(-2, 4) for _ in range(ri(1, 6))]})
                if rng.random() < .6:
                    ops.append({"op": "curve"})
            if rng.random() < .3:
                n = ri(2, 3)
                ops.append({"op": "setup", "i": ri(1, 3), "h": ri(1, 4), "n": n, "cls": [rng.randrange(n) for _ in range(3)]})
        elif kind == "win":
            d, cls = ri(1, 3), rng.random() < .4
            cfg = {"kind": kind}
            ops = [{"op": "win", "cls": cls, "w": ri(1, 4), "seqs": [[{"x": [ri(-9, 9) for _ in range(d)], "t": [ri(0, 2)] if cls else [ri(-9, 9)]} for _ in range(ri(1, 9))] for _ in range(ri(1, 4))]} for _ in range(2)]
        elif kind == "norm":
            d = ri(1, 3)
            cfg = {"kind": kind, "meanstd": rng.random() < .5}
            col = [rng.random() < .15 for _ in range(d)]

            def rows():
                r = [vec(d) for _ in range(ri(1, 5))]
                for j in range(d):
                    if col[j]:
                        for q in r:
                            q[j] = r[0][j]
                return r
            lo = rng.choice([-4096, 0, -8192])
            ops = []
            for _ in range(ri(1, 2)):
                ops.append({"op": "calc", "data": rows(), "lo": lo, "hi": rng.choice([4096, 8192]) if lo else 4096})
                for _ in range(ri(1, 4)):
                    ops.append(rng.choice([{"op": "apply", "data": rows()}, {"op": "pattern", "x": vec(d)}, {"op": "reload"}]))
        elif kind == "files":
            cfg = {"kind": kind}
            ops = []
            for _ in range(ri(3, 9)):
                w, n = rng.random(), rng.choice(["a", "b", "c"])
                if w < .5:
                    ops.append({"op": "add", "n": n, "k": rng.choice(["x", "y"]), "d": ri(-5, 5)})
                elif w < .6:
                    ops.append({"op": "dump", "n": n, "v": [{"n": k, "v": [ri(0, 9) for _ in range(ri(0, 2))]} for k in rng.sample(["x", "y", "z"], ri(0, 2))]})
                elif w < .85:
                    ops.append({"op": "read", "n": n})
                else:
                    ops.append({"op": "list"})
        else:
            cfg = {"kind": kind}
            ops = []
            for _ in range(ri(1, 3)):
                w = rng.random()
                if w < .6:
                    S = [{"y": rng.choice([-1, 1, 2]), "f": [[k, rng.randrange(-8192, 8193, 64)] for k in range(1, 6) if rng.random() < .5]} for _ in range(ri(1, 5))]
                    if all(not s["f"] for s in S):
                        S[0]["f"] = [[2, 4096]]
                    ops.append({"op": "svm", "s": S, "again": rng.random() < .4})
                elif w < .85:
                    n, d, c = ri(1, 4), ri(1, 3), ri(2, 4)
                    hot = [rng.randrange(c) for _ in range(n)]
                    ops.append({"op": "raw", "x": [vec(d) for _ in range(n)], "t": [[int(k == h) for k in range(c)] for h in hot], "again": rng.random() < .4})
                else:
                    pic = lambda: {"y": ri(0, 9), "f": [[k, ri(1, 255)] for k in sorted(rng.sample(range(784), ri(0, 4)))]}
                    ops.append({"op": "mnist", "train": [pic() for _ in range(ri(0, 3))], "test": [pic() for _ in range(ri(0, 3))]})
        out.append(run("r%d" % i, cfg, ops, rng))
    job.write("random", out)


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
