"""Driver for the network builders (spec Builders)."""
from common import *
import copy
from pybrain.structure import LinearLayer, SigmoidLayer, TanhLayer, LSTMLayer, MDLSTMLayer, BiasUnit, FullConnection, FeedForwardNetwork, RecurrentNetwork
from pybrain.structure.modulemesh import ModuleMesh
from pybrain.structure.networks.bidirectional import BidirectionalNetwork
from pybrain.structure.networks.swiping import SwipingNetwork
from pybrain.structure.networks.borderswiping import BorderSwipingNetwork
from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
from pybrain.structure.networks.neurondecomposable import NeuronDecomposableNetwork
from pybrain.tools.shortcuts import buildNetwork

CLS = {"lin": LinearLayer, "sig": SigmoidLayer, "tanh": TanhLayer, "lstm": LSTMLayer, "mdlstm": MDLSTMLayer}
KIND = {v: k for k, v in CLS.items()}
KIND[BiasUnit] = "bias"


class Refused(Exception):
    pass


def noexit(fn):
    try:
        return fn()
    except SystemExit:
        raise Refused()


def flat(params):
    return FXL(params)


# ---------------------------------------------------------------- building
def construct(c):
    b = c["b"]
    if b == "build":
        kw = {}
        for key, opt, dflt in (("bias", "bias", True), ("outbias", "outputbias", True), ("peep", "peepholes", False),
                               ("recurrent", "recurrent", False), ("fast", "fast", False)):
            if c[key] != dflt or c["explicit"]:
                kw[opt] = c[key]
        if c["hidc"] != "sig" or c["explicit"]:
            kw["hiddenclass"] = CLS[c["hidc"]]
        if c["outc"] != "lin" or c["explicit"]:
            kw["outclass"] = CLS[c["outc"]]
        if c["badopt"]:
            kw["hiddenlayers"] = 3
        return noexit(lambda: buildNetwork(*c["layers"], **kw))
    if b == "bidi":
        return BidirectionalNetwork(seqlen=c["len"], inputsize=c["isz"], hiddensize=c["hsz"], outputsize=c["osz"], symmetric=c["sym"],
                                    componentclass=CLS[c["hidc"]], outcomponentclass=CLS[c["outc"]])
    dims = tuple(c["dims"])
    if b in ("swipe", "border"):
        n = 1
        for d in dims:
            n *= d
        inmesh = ModuleMesh.viewOnFlatLayer(LinearLayer(c["isz"] * n, name="input"), dims, "inmesh")
        outmesh = ModuleMesh.viewOnFlatLayer(CLS[c["outc"]](c["osz"] * n, name="output"), dims, "outmesh")
        hid = ModuleMesh.constructWithLayers(CLS[c["hidc"]], c["hsz"], dims + (2 ** len(dims),), "hidden")
        kw = {} if c["symdim"] else {"symmetricdimensions": False}
        if not c["symdir"]:
            kw["symmetricdirections"] = False
        if c["simple"]:
            kw["simpleborders"] = True
        return (SwipingNetwork if b == "swipe" else BorderSwipingNetwork)(inmesh, hid, outmesh, **kw)
    if b == "md":
        kw = {"symmetricdimensions": c["symdim"], "symmetricdirections": c["symdir"], "hsize": c["hsz"], "insize": c["isz"],
              "outputs": c["osz"], "outcomponentclass": CLS[c["outc"]]}
        if c["hidc"] == "mdlstm":
            return MultiDimensionalLSTM(dims, **kw)
        return MultiDimensionalRNN(dims, componentclass=CLS[c["hidc"]], **kw)
    if b == "capture":
        kw = {}
        if c["hidc"] != "tanh":
            kw["componentclass"] = CLS[c["hidc"]]
        if c["simple"]:
            kw["simpleborders"] = True
        if c["direct"]:
            kw["directlink"] = True
        if not c["symdim"]:
            kw["symmetricdimensions"] = False
        return CaptureGameNetwork(size=dims[0], insize=c["isz"], hsize=c["hsz"], outputs=c["osz"], outcomponentclass=CLS[c["outc"]], **kw)
    if b == "conv":
        return SimpleConvolutionalNetwork(c["isz"], c["size"], c["conv"], c["maps"])
    if b == "board":
        return ConvolutionalBoardNetwork(c["size"], c["conv"], c["maps"])


def structure(c, net):
    mods = [[m.name, KIND.get(type(m), type(m).__name__), I(m.dim)] for m in sorted(net.modules, key=lambda m: m.name)]
    full = lambda x: [x.inmod.name, x.outmod.name, I(x.paramdim)] if type(x) is FullConnection else [x.inmod.name, x.outmod.name, -1]
    conns = [full(x) for m in mods for x in net.connections[net[m[0]]]]
    rec = [full(x) for x in net.recurrentConns] if isinstance(net, RecurrentNetwork) else []
    return mods, conns, rec, isinstance(net, RecurrentNetwork)


def allconns(net):
    return [x for m in sorted(net.modules, key=lambda m: m.name) for x in net.connections[m]]


def weights(c, net):
    """name of the weight group -> values; border groups as a list"""
    b, w, bord = c["b"], {}, []
    if b == "build":
        for m in net.modules:
            if m.paramdim:
                w[m.name] = flat(m.params)
        for x in allconns(net) + (list(net.recurrentConns) if isinstance(net, RecurrentNetwork) else []):
            w[x.inmod.name + ">" + x.outmod.name] = flat(x.params)
        return w, bord
    if b == "bidi":
        for m in net.motherconnections:
            w[m.name] = flat(m.params)
        return w, bord
    if b in ("conv", "board"):
        for m in net.motherconnections:
            if m.name.startswith("conv"):
                w[m.name] = flat(m.params)
        for x in allconns(net):
            if x.outmod is net["out"]:
                w["outconn"] = flat(x.params)
            if isinstance(x.inmod, BiasUnit):
                w["pad"] = flat(x.params)
        return w, bord
    p = net.predefined
    w["inconn"], w["outconn"] = flat(p["inconn"].params), flat(p["outconn"].params)
    for k, m in p["hconns"].items():
        key = "h%d%s" % ((k[0], k[1]) if isinstance(k, tuple) else (k, ""))
        w[key] = flat(m.params)
    if "directconn" in p:
        w["direct"] = flat(p["directconn"].params)
    if "borderconn" in p:
        w["border"] = flat(p["borderconn"].params)
    for d in p.get("bordconns", {}):
        for t in p["bordconns"][d]:
            if c["symdim"] and d > 0:
                continue
            bord.append({"d": 0 if c["symdim"] else d + 1, "t": list(t), "v": flat(p["bordconns"][d][t].params)})
    if b == "capture" or b == "border":
        for d in p.get("bordconns", {}):
            if c["symdim"] and d > 0:
                for t in p["bordconns"][d]:
                    r = {"d": 0, "t": list(t), "v": flat(p["bordconns"][d][t].params)}
                    if r not in bord:
                        bord.append(r)
    return w, bord


def vec(rng, n, hi=64):
    return [rng.randint(-hi, hi) * 64 for _ in range(n)]


def setw(rng, c, net):
    v = [x / 4096.0 for x in vec(rng, net.paramdim)]
    if rng.random() < 0.5:
        net._setParameters(numpy.array(v))
    else:
        net.params[:] = v


BASE = {"layers": [], "hidc": "sig", "outc": "lin", "bias": True, "outbias": True, "peep": False, "recurrent": False, "fast": False,
        "badopt": False, "explicit": False, "len": 1, "isz": 1, "hsz": 1, "osz": 1, "sym": False, "dims": [2], "symdim": True,
        "symdir": True, "simple": False, "direct": False, "size": 2, "conv": 1, "maps": 1, "conns": [], "esp": True}


def config(rng, b):
    c = copy.deepcopy(BASE)
    c["b"] = b
    if b == "build":
        c["hidc"] = rng.choice(["sig", "lin", "tanh", "lstm", "lstm"])
        c["outc"] = rng.choice(["lin", "sig", "tanh", "lin", "lstm"])
        nl = rng.choice([2, 3, 3, 3, 4, 5, 6, 7, 8, 1, 0]) if c["hidc"] != "lstm" else rng.choice([2, 3, 3, 3, 3, 4])
        c["layers"] = [rng.randint(1, 4) for _ in range(nl)]
        for k, p in (("bias", 0.7), ("outbias", 0.6), ("peep", 0.4), ("recurrent", 0.3), ("fast", 0.04), ("badopt", 0.04), ("explicit", 0.6)):
            c[k] = rng.random() < p
        return c
    c["isz"], c["hsz"], c["osz"] = rng.choice([1, 1, 2]), rng.choice([1, 2, 2]), rng.choice([1, 1, 2])
    c["hidc"], c["outc"] = rng.choice(["tanh", "tanh", "sig", "lin"]), rng.choice(["sig", "tanh", "lin"])
    if b == "bidi":
        c["len"], c["sym"] = rng.randint(2, 5), rng.random() < 0.5
    elif b in ("swipe", "border"):
        c["dims"] = rng.choice([[2], [4], [3], [2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [2, 2, 2], [3, 4]])
        c["symdim"], c["symdir"] = rng.random() < 0.5, b == "border" or rng.random() < 0.5
        c["simple"] = b == "border" and rng.random() < 0.3
    elif b == "md":
        c["dims"] = rng.choice([[2, 2], [2, 3], [3, 2], [3, 3]])
        c["symdim"], c["symdir"] = rng.random() < 0.5, rng.random() < 0.5
        if rng.random() < 0.6:
            c["hidc"] = "mdlstm"
    elif b == "capture":
        n = rng.choice([2, 3, 3])
        c["dims"] = [n, n]
        c["simple"], c["direct"], c["symdim"] = rng.random() < 0.3, rng.random() < 0.4, rng.random() < 0.6
        if rng.random() < 0.4:
            c["hidc"] = "mdlstm"
    elif b == "conv":
        c["size"] = rng.choice([2, 3, 4])
        c["conv"], c["maps"] = rng.randint(1, c["size"] - 1), rng.randint(1, 3)
        c["osz"] = 1
    elif b == "board":
        c["size"], c["conv"], c["maps"] = rng.choice([2, 3, 4]), rng.choice([1, 2, 3, 4]), rng.randint(1, 3)
        c["isz"] = 2
    return c


def step0(op):
    return {"op": op, "err": "", "indim": 0, "outdim": 0, "pdim": 0, "sorted": False, "mods": [], "conns": [], "rec": [], "seq": False,
            "w": {}, "bord": [], "x": [], "ret": [], "dims": []}


def one(job, rng, k, c):
    steps = []
    tr = {"name": "%s-%d" % (c["b"], k), "cfg": c, "steps": steps}
    s = step0("build")
    steps.append(s)
    net = None

    def mk():
        n = construct(c)
        s["indim"], s["outdim"], s["pdim"], s["sorted"] = I(n.indim), I(n.outdim), I(n.paramdim), bool(n.sorted)
        if c["b"] == "build":
            s["mods"], s["conns"], s["rec"], s["seq"] = structure(c, n)
        return n
    s["err"], net = guarded(mk)
    if s["err"]:
        return tr

    def w():
        s = step0("w")

        def f():
            setw(rng, c, net)
            s["w"], s["bord"] = weights(c, net)
        s["err"], _ = guarded(f)
        steps.append(s)
    w()
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.15:
            w()
        elif r < 0.3:
            s = step0("reset")
            s["err"], _ = guarded(net.reset)
            steps.append(s)
        elif r < 0.5 and c["b"] == "capture":
            n = rng.choice([2, 3, 4]) if c["hsz"] == 1 else rng.choice([2, 3])
            s = step0("resize")
            s["dims"] = [n, n]

            def f():
                m = net.resizedTo(n)
                s["w"], s["bord"] = weights(c, m)
                s["pdim"] = I(m.paramdim)
                return m
            s["err"], m = guarded(f)
            net = m or net
            steps.append(s)
        s = step0("act")
        s["x"] = vec(rng, steps[0]["indim"] if c["b"] != "capture" or not any(t["op"] == "resize" for t in steps) else net.indim)
        x = numpy.array(s["x"]) / 4096.0
        s["err"], s["ret"] = guarded(lambda: FXL(net.activate(x)), [])
        steps.append(s)
    return tr


# ------------------------------------------------------- neuron decomposition
def decnet(rng):
    if rng.random() < 0.6:
        lstm = rng.random() < 0.4
        layers = [rng.randint(1, 3) for _ in range(3 if lstm else rng.choice([2, 3, 4]))]
        return buildNetwork(*layers, hiddenclass=LSTMLayer if lstm else rng.choice([SigmoidLayer, TanhLayer]),
                            outclass=rng.choice([LinearLayer, SigmoidLayer]), bias=rng.random() < 0.6, outputbias=rng.random() < 0.6,
                            peepholes=rng.random() < 0.6, recurrent=rng.random() < 0.4)
    rec = rng.random() < 0.5
    n = (RecurrentNetwork if rec else FeedForwardNetwork)()
    ms = []
    k = rng.randint(2, 4)
    for i in range(k):
        t = rng.choice(["lin", "tanh", "lstm"]) if 0 < i < k - 1 else "lin"
        m = LSTMLayer(rng.randint(1, 2), peepholes=rng.random() < 0.7, name="m%d" % i) if t == "lstm" else CLS[t](rng.randint(1, 3), name="m%d" % i)
        (n.addInputModule if i == 0 else n.addOutputModule if i == k - 1 else n.addModule)(m)
        ms.append(m)
    for i in range(k):
        for j in range(i + 1, k):
            if j == i + 1 or rng.random() < 0.5:
                n.addConnection(FullConnection(ms[i], ms[j]))
        if rec and rng.random() < 0.5:
            n.addRecurrentConnection(FullConnection(ms[i], ms[rng.randint(0, i)]))
    n.sortModules()
    return n


def dec(job, rng, k):
    c = copy.deepcopy(BASE)
    c["b"] = "dec"
    steps = []
    tr = {"name": "dec-%d" % k, "cfg": c, "steps": steps}
    c["esp"] = rng.random() < 0.6
    src = decnet(rng)
    had = src.paramdim

    def f():
        d = NeuronDecomposableNetwork.convertNormalNetwork(src)
        if not c["esp"]:
            d.espStyleDecomposition = False
            d.sorted = False
            d.sortModules()
        if d.paramdim != had:
            raise Malformed("parameters lost")
        return d
    e, net = guarded(f)
    if e:
        s = step0("wc")
        s["err"], s["wc"] = e, []
        steps.append(s)
        return tr
    mods = list(net.modules)
    idx = {m: i + 1 for i, m in enumerate(mods)}
    parts = [("m", m) for m in mods if m.paramdim] + [("c", x) for m in mods for x in net.connections[m]]
    if isinstance(net, RecurrentNetwork):
        parts += [("c", x) for x in net.recurrentConns]
    outs = set(net.outmodules)
    for t, x in parts:
        if t == "m":
            c["conns"].append({"a": idx[x], "b": idx[x], "da": 1, "na": I(x.dim), "nb": I(x.dim), "out": x in outs, "self": True})
        else:
            c["conns"].append({"a": idx[x.inmod], "b": idx[x.outmod], "da": I(x.inmod.outdim), "na": I(x.inmod.dim),
                               "nb": I(x.outmod.dim), "out": x.outmod in outs, "self": False})

    def snap():
        return [IL(x.params) for _, x in parts]
    perm = [v + 1 for v in rng.sample(range(500), net.paramdim)]

    def do(op, fn, **kw):
        s = step0(op)
        s.update(wc=[], ret=[], old=[], new=[])
        s.update(kw)
        s["err"], v = guarded(fn, {})
        s.update(v or {})
        steps.append(s)
        return s
    last = None
    for i in range(6):
        r = rng.random()
        if i == 0 or r < 0.15:
            perm = [v + 1 for v in rng.sample(range(500), net.paramdim)]

            def f():
                net.params[:] = perm
                return {"wc": snap()}
            do("wc", f)
            last = None
        elif r < 0.6 or last is None:
            s = do("getdec", lambda: {"ret": [IL(a) for a in net.getDecomposition()]})
            last = s["ret"] if not s["err"] else None
        else:
            sizes = [len(a) for a in last]
            vals = [v + 1 for v in rng.sample(range(900), sum(sizes))]
            new, p = [], 0
            for z in sizes:
                new.append(vals[p:p + z])
                p += z

            def f():
                net.setDecomposition([numpy.array(a, dtype=float) for a in new])
                return {"wc": snap(), "ret": [IL(a) for a in net.getDecomposition()]}
            do("setdec", f, old=last, new=new)
            last = new
    return tr


def run(job):
    rng = job.rng
    n = job.args.get("count", 100)
    kinds = ["build"] * 6 + ["bidi"] * 2 + ["swipe"] * 3 + ["border"] * 3 + ["md"] * 3 + ["capture"] * 3 + ["conv"] * 2 + ["board"] * 2 + ["dec"] * 4
    out = []
    for k in range(n):
        b = rng.choice(kinds)
        out.append(dec(job, rng, k) if b == "dec" else one(job, rng, k, config(rng, b)))
    job.write("builders", out)


def replay(job):
    """every configuration enumerated by the specification"""
    out = []
    for k, bh in enumerate(job.behaviours):
        c = copy.deepcopy(BASE)
        c.update(bh["cfg"])
        out.append(one(job, job.rng, k, c))
    job.write("builders_cfg", out)


main({"random": run, "replay": replay})
