"""Driver for Evolino (spec Evolino)."""
from common import *
from numpy import array
from pybrain.datasets.sequential import SequentialDataSet
from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
from pybrain.structure.modules.biasunit import BiasUnit
from pybrain.structure.modules.lstm import LSTMLayer
from pybrain.supervised.trainers.evolino import EvolinoTrainer
from pybrain.supervised.evolino.filter import EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation

ONE = 4096


def mats(net):
    """The three matrices into the gates, by where the connection comes from."""
    out = {}
    nn = net._network
    cons = list(nn.recurrentConns) + [c for cs in nn.connections.values() for c in cs]
    for c in cons:
        if isinstance(c.outmod, LSTMLayer):
            name = "bias" if isinstance(c.inmod, BiasUnit) else "rec" if isinstance(c.inmod, LSTMLayer) else "in"
            if name in out:
                raise Malformed("two connections of one kind")
            out[name] = numpy.asarray(c.params).reshape(c.outdim, c.indim)
    return out


def fxm(m):
    return [[FX(v) for v in row] for row in m]


def order(d, h):
    """The order of the connections within a chromosome."""
    net = EvolinoNetwork(d, h)
    g = net.getGenome()
    n = 0
    for cell in g:
        for i in range(len(cell)):
            n += 1
            cell[i] = float(n)
    net.setGenome(g)
    m = mats(net)
    return net, [k for k, _ in sorted(m.items(), key=lambda kv: kv[1][0][0])]


def cfg(d, h, order, **kw):
    c = {"kind": "net", "d": d, "h": h, "order": order, "factor": 41, "burst": -1, "size": 1, "ncomb": 1, "parents": 1, "num": 1, "den": 2, "data": []}
    c.update(kw)
    return c


class Net(object):
    def __init__(self, rng, d, h, factor=None):
        self.rng, self.steps, self.d, self.h = rng, [], d, h
        err, r = guarded(lambda: order(d, h))
        self.err = err
        self.net, self.order = r if not err else (None, ["rec", "in", "bias"])
        self.cfg = cfg(d, h, self.order, factor=0)
        if not err:
            z = [[0.] * len(c) for c in self.net.getGenome()]
            self.net.setGenome(z)
            self.net.setOutputWeightMatrix(numpy.zeros((d, h)))
        self.do("factor", v=factor if factor is not None else rng.choice([1024, 2048, 64, 4096, 0]))

    def do(self, op, **kw):
        b = dict(kw, op=op)
        net = self.net

        def seq():
            return array(b["seq"], dtype=float).reshape(len(b["seq"]), self.d) / ONE if self.rng.random() < .6 else [array(v, dtype=float) / ONE for v in b["seq"]]

        def go():
            if op == "factor":
                net.backprojectionFactor = b["v"] / float(ONE)
            elif op == "setgenome":
                g = [[v / float(ONE) for v in c] for c in b["g"]]
                keep = [list(c) for c in g]
                net.setGenome(g)
                b["same"] = g == keep
            elif op == "getgenome":
                g = net.getGenome()
                b["g"] = fxm(g)
                for c in g:     # what is returned is a copy
                    for i in range(len(c)):
                        c[i] = 99.
            elif op == "setw":
                net.setOutputWeightMatrix(array(b["w"], dtype=float) / ONE)
                b["got"] = fxm(net.getOutputWeightMatrix())
            elif op == "getw":
                b["got"] = fxm(net.getOutputWeightMatrix())
            elif op == "reset":
                net.reset()
            elif op == "activate":
                net.activate(numpy.zeros(self.d))
            elif op == "generate":
                b["res"] = fxm(net.generate(b["n"]))
            else:
                s = seq()
                keep = [numpy.array(v) for v in s]
                b["res"] = fxm(net.washout(s) if op == "washout" else net.extrapolate(s, b["n"]))
                b["same"] = all((v == w).all() for v, w in zip(s, keep))
            if op in ("setgenome", "getgenome"):
                m = mats(net)
                for k in ("in", "bias", "rec"):
                    b[k + "m"] = fxm(m[k])
        b["err"], _ = guarded(go)
        for k, v in (("same", True), ("res", []), ("got", []), ("inm", []), ("biasm", []), ("recm", []), ("g", [])):
            b.setdefault(k, v)
        self.steps.append(b)
        return b["err"]


def rseq(rng, d, n):
    g = rng.choice([1, 2, 4])
    return [[rng.randint(-g * 4, g * 4) * 1024 for _ in range(d)] for _ in range(n)]


def rgenome(rng, d, h):
    g = rng.choice([32, 96, 160])
    return [[rng.randint(-g, g) * 64 for _ in range(4 * (d + 1 + h))] for _ in range(h)]


def network(rng):
    d, h = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 2, 3, 4])
    n = Net(rng, d, h)
    if not n.err:
        n.do("setgenome", g=rgenome(rng, d, h))
        n.do("setw", w=[[rng.randint(-48, 48) * 64 for _ in range(h)] for _ in range(d)])
        for _ in range(rng.randint(5, 14)):
            op = rng.choice(["washout", "washout", "generate", "generate", "extrapolate", "extrapolate", "reset", "setgenome", "getgenome", "setw", "getw", "factor", "activate"])
            kw = {}
            if op in ("washout", "extrapolate"):
                kw["seq"] = rseq(rng, d, rng.randint(1, 6))
            if op in ("generate", "extrapolate"):
                kw["n"] = rng.randint(1, 5)
            if op == "setgenome":
                kw["g"] = rgenome(rng, d, h)
            elif op == "setw":
                kw["w"] = [[rng.randint(-48, 48) * 64 for _ in range(h)] for _ in range(d)]
            elif op == "factor":
                kw["v"] = rng.choice([1024, 2048, 64, 4096, 0])
            e = n.do(op, **kw)
            if e and op != "activate":
                break
    return {"name": "network", "cfg": n.cfg, "steps": n.steps}


def train(rng, vals=None, burst=None):
    d, h = rng.choice([1, 1, 2]), rng.choice([1, 2, 3])
    size, ncomb = rng.choice([2, 3, 5, 8]), rng.choice([1, 1, 2])
    nparents = rng.choice([None, 1, 2])
    default = rng.random() < .2
    nseq = rng.choice([1, 1, 2, 3])
    data = [rseq(rng, d, rng.randint(8, 14)) for _ in range(nseq)]
    kind = rng.choice(["half", "quarter", "pair13", "pair31", "default"])
    num, den = {"half": (1, 2), "quarter": (1, 4), "pair13": (1, 4), "pair31": (3, 4), "default": (1, 4)}[kind]
    if burst is None:
        burst = rng.choice([-1, 1, 2, 3])
    if default:
        size, ncomb = 8, 4
    factor = rng.choice([1024, 41, 64])
    T = {"name": "train", "cfg": None, "steps": []}
    log, evals = [], []
    script = iter(vals) if vals else None
    st = {}

    def evalfunc(output, target):
        net = st["net"]
        w = net.getOutputWeightMatrix()
        t = numpy.asarray(target, dtype=float)
        # residual of the regression on the raw outputs, which is orthogonal to them
        resid, phis = [], []
        for q in data:
            s = array(q, dtype=float) / ONE
            k = (num * len(s)) // den
            st["twin"].setGenome(net.getGenome())
            st["twin"].reset()
            st["twin"].washout(s[:k])
            p = st["twin"].washout(s[k:])
            phis.append(p)
            resid.append(s[k:] - p.dot(w.T))
        P, R = numpy.concatenate(phis), numpy.concatenate(resid)
        orth = R.T.dot(P).reshape(-1) / (1 + abs(P).sum() * (1 + abs(w).max()))
        if script is not None:
            st["left"] -= 1
            fit = st["best"] if st["left"] == st["pick"] else st["best"] - rng.randint(0, 4)
        else:
            fit = rng.randint(-5, 5) + st.get("lift", 0)
        evals.append({"genome": fxm(net.getGenome()), "w": fxm(w), "out": fxm(output), "tgt": fxm(t), "fit": fit, "orth": FXL(orth)})
        return float(fit)

    def make():
        ds = SequentialDataSet(0, d)
        for q in data:
            ds.newSequence()
            for v in q:
                ds.addSample([], array(v, dtype=float) / ONE)
        net, od = order(d, h)
        st["net"], st["twin"] = net, EvolinoNetwork(d, h)
        net.backprojectionFactor = factor / float(ONE)

        class Sel(EvolinoSelection):
            def apply(self, pop):
                log.append("select")
                EvolinoSelection.apply(self, pop)

        class Rep(EvolinoReproduction):
            def apply(self, pop):
                log.append("reproduce")
                st["between"] = [sp.getIndividualsN() for sp in pop.getSubPopulations()]
                EvolinoReproduction.apply(self, pop)
                st["after"] = [sp.getIndividualsN() for sp in pop.getSubPopulations()]

        class Bur(EvolinoBurstMutation):
            def apply(self, pop):
                log.append("burst")
                EvolinoBurstMutation.apply(self, pop)
        kw = dict(evalfunc=evalfunc, selection=Sel(), reproduction=Rep(), burstMutation=Bur(), initialWeightRange=(-.5, .5))
        if not default:
            kw.update(subPopulationSize=size, nCombinations=ncomb, nParents=nparents)
        f2 = factor
        if rng.random() < .3:
            f2 = 512
            kw["backprojectionFactor"] = f2 / float(ONE)
        if kind != "default":
            kw["wtRatio"] = {"half": .5, "quarter": .25, "pair13": (1, 3), "pair31": [3., 1.]}[kind]
        if burst > 0:
            kw["nBurstMutationEpochs"] = burst
        tr = EvolinoTrainer(net, dataset=ds, **kw)
        st["twin"].backprojectionFactor = f2 / float(ONE)
        return tr, od, f2
    err, r = guarded(make)
    np_ = None if default else nparents
    parents = max(1, size // 4) if np_ is None else np_
    T["cfg"] = cfg(d, h, r[1] if r else ["rec", "in", "bias"], kind="train", factor=r[2] if r else 0, burst=burst, size=size, ncomb=ncomb, parents=parents, num=num, den=den, data=data)
    if err:
        T["steps"].append({"op": "train", "err": err})
        return T
    tr, _, f2 = r
    for e in range(len(vals) if vals else rng.randint(1, 5)):
        b = {"op": "train", "evals": [], "calls": [], "maxf": 0, "total": 0, "between": 0, "after": 0, "genome": [], "w": [], "factor": 0}
        del log[:], evals[:]
        if vals:
            st["best"], st["left"], st["pick"] = 10 * vals[e], ncomb * size, rng.randrange(ncomb * size)
        else:
            st["lift"] = rng.choice([0, 0, 2, -3]) + st.get("lift", 0)

        def go():
            if rng.random() < .5:
                tr.train()
            else:
                tr.trainEpochs(1)
            net = st["net"]
            b["calls"], b["evals"] = list(log), list(evals)
            b["maxf"], b["total"] = I(tr.evaluation.max_fitness), I(tr.totalepochs)
            b["between"] = st["between"][0] if len(set(st["between"])) == 1 else -1
            b["after"] = st["after"][0] if len(set(st["after"])) == 1 else -1
            b["genome"], b["w"] = fxm(net.getGenome()), fxm(net.getOutputWeightMatrix())
            b["factor"] = FX(net.backprojectionFactor)
        b["err"], _ = guarded(go)
        T["steps"].append(b)
        if b["err"]:
            break
    return T


def run(job):
    rng = job.rng
    out = []
    for k in range(job.args["count"]):
        t = network(rng) if k % 4 else train(rng)
        t["name"] += "-%d" % k
        out.append(t)
    job.write("evolino", out)


def replay(job):
    rng = job.rng
    out = []
    for k, beh in enumerate(job.behaviours):
        c = beh["cfg"]
        if c["kind"] == "train":
            t = train(rng, vals=[op["best"] for op in beh["ops"]][:6], burst=c["burst"])
        else:
            d, h = c["d"], c["h"]
            n = Net(rng, d, h, c["factor"])
            gs = {v: [[(((cell * 37 + q * 13 + v * 29) % 17) - 8) * 256 for q in range(1, 4 * (d + 1 + h) + 1)] for cell in range(1, h + 1)] for v in c["seeds"]}
            ws = {v: [[(((i * 5 + j * 7 + v * 3) % 9) - 4) * 512 for j in range(1, h + 1)] for i in range(1, d + 1)] for v in c["seeds"]}
            for op in beh["ops"] if not n.err else []:
                o = op["op"]
                kw = {q: op[q] for q in ("seq", "n") if q in op}
                if o == "setgenome":
                    kw["g"] = gs[op["seed"]]
                elif o == "setw":
                    kw["w"] = ws[op["seed"]]
                if n.do(o, **kw):
                    break
            t = {"name": "net_gen", "cfg": n.cfg, "steps": n.steps}
        t["name"] += "-%d" % k
        out.append(t)
    job.write("evolino_gen", out)


main({"random": run, "replay": replay})
