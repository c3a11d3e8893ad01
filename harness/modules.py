"""Driver for single modules (spec Modules): alone, in a feed-forward and in a recurrent network."""
from common import *
import copy, pickle
from pybrain.structure import (LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer, GaussianLayer, GateLayer, DoubleGateLayer,
                               MultiplicationLayer, SwitchLayer, LSTMLayer, MDLSTMLayer, BiasUnit, FeedForwardNetwork,
                               RecurrentNetwork, IdentityConnection, FullConnection, StateDependentLayer)
from pybrain.structure.modules.relulayer import ReluLayer
from pybrain.structure.modules.softsign import SoftSignLayer
from pybrain.structure.modules.softmax import PartialSoftmaxLayer
from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
from pybrain.structure.modules.samplelayer import BernoulliLayer
from pybrain.structure.modules.table import Table
from pybrain.tools import functions

SIMPLE = {"lin": LinearLayer, "sig": SigmoidLayer, "tanh": TanhLayer, "relu": ReluLayer, "ssign": SoftSignLayer, "softmax": SoftmaxLayer,
          "mul": MultiplicationLayer, "gate": GateLayer, "dgate": DoubleGateLayer, "switch": SwitchLayer, "bern": BernoulliLayer}
KINDS = ["lin", "sig", "tanh", "relu", "ssign", "softmax", "psoftmax", "mul", "gate", "dgate", "switch", "bias", "mix", "table",
         "bern", "gauss", "gauss", "sdep", "sdep"] + ["lstm"] * 8 + ["mdlstm"] * 4
FNS = ["sigmoid", "sigmoidPrime", "tanhPrime", "safeExp", "expln", "explnPrime", "semilinear", "semilinearPrime"]


def q(x):
    return [v / 4096.0 for v in x]


def make(c):
    k, n = c["k"], c["n"]
    ex = None
    if k in SIMPLE:
        m = SIMPLE[k](n)
    elif k == "psoftmax":
        m = PartialSoftmaxLayer(n, c["len"])
    elif k == "bias":
        m = BiasUnit()
    elif k == "mix":
        m = MixtureDensityLayer(n, mix=c["len"])
    elif k == "table":
        m = Table(c["rows"], c["cols"])
    elif k == "gauss":
        m = GaussianLayer(n)
        m.autoalpha, m.enabled = c["auto"], c["on"]
    elif k == "sdep":
        ex = FeedForwardNetwork()
        ex.addInputModule(LinearLayer(c["len"], name="i"))
        ex.addOutputModule(LinearLayer(n, name="o"))
        ex.addConnection(FullConnection(ex["i"], ex["o"]))
        ex.sortModules()
        m = StateDependentLayer(n, ex, onesigma=c["one"])
        m.autoalpha, m.enabled = c["auto"], c["on"]
    elif k == "lstm":
        m = LSTMLayer(n, peepholes=c["peep"])
    elif k == "mdlstm":
        m = MDLSTMLayer(n, dimensions=c["nd"], peepholes=c["peep"])
    net = m
    if c["wrap"] != "bare":
        net = (RecurrentNetwork if c["wrap"] == "rec" else FeedForwardNetwork)()
        if m.indim:
            net.addInputModule(LinearLayer(m.indim, name="i"))
        net.addModule(m)
        net.addOutputModule(LinearLayer(m.outdim, name="o"))
        if m.indim:
            net.addConnection(IdentityConnection(net["i"], m))
        net.addConnection(IdentityConnection(m, net["o"]))
        net.sortModules()
    return m, net, ex


def one(job, rng, k):
    kind = rng.choice(KINDS)
    n = rng.randint(1, 3)
    c = {"k": kind, "n": n, "peep": rng.random() < 0.6, "nd": rng.randint(1, 3), "len": rng.randint(1, 3), "rows": rng.randint(1, 3),
         "cols": rng.randint(1, 3), "wrap": rng.choice(["bare", "ff", "rec", "rec"]), "auto": rng.random() < 0.5,
         "on": rng.random() < 0.75, "one": rng.random() < 0.5, "p0": []}
    if kind == "psoftmax":
        c["n"] = n = c["len"] * rng.randint(1, 3)
    if kind == "softmax":
        c["n"] = n = rng.randint(1, 5)
    if kind == "mix":
        c["len"] = rng.randint(1, 3)
    if kind == "bias":
        c["n"] = n = 1
    steps = []
    tr = {"name": "%s-%d" % (kind, k), "cfg": c, "steps": steps}
    val = lambda hi=2: rng.randint(-hi * 64, hi * 64) * 64

    def params():
        if kind in ("gauss", "sdep"):
            return [rng.randint(-70, 130) * 64 for _ in range(len(m.params))]
        return [val(1) for _ in range(m.paramdim)]
    m, net, ex = make(c)
    if m.paramdim:
        c["p0"] = params()
        if c["wrap"] == "bare" and rng.random() < 0.5:
            m._setParameters(numpy.array(q(c["p0"])))
        m.params[:] = q(c["p0"])
    T = rng.choice([2, 5, 9])
    done, back, passes, kx = 0, 0, 0, 0
    z = False

    def snap(s):
        def f():
            return FXL(m.params) if m.paramdim else [], FXL(m.derivs) if m.paramdim else [], I(m.paramdim)
        e, v = guarded(f, ([], [], 0))
        s["params"], s["derivs"], s["pdim"] = v
        s["err"] = s["err"] or e
        steps.append(s)
    for _ in range(job.args.get("len", 30)):
        ch = []
        if back == 0 and done < T:
            ch += ["act"] * 6
        if back < done and passes < 3 * T and kind not in ("bern", "bias", "table") and not (kind == "gauss" and not c["on"]) and \
                not (kind == "sdep" and not z) and (c["wrap"] == "rec" or back == 0):
            ch += ["back"] * 7
        if c["wrap"] != "rec" and done and back:
            ch += ["act"] * 6
        if done:
            ch += ["reset"] * (5 if done == T or back else 1)
        if m.paramdim:
            ch += ["resetd"] * (1 if passes < 3 * T else 10)
            if done == 0 or back == done:
                ch += ["setp"]
        if kind == "sdep":
            ch += ["state"] * 3
        if kind == "table":
            ch += ["put", "get"]
        ch += ["fn"]
        op = rng.choice(ch)
        s = {"op": op, "x": [], "e": [], "y": [], "ret": []}
        fn = None
        if op == "act":
            big = rng.random() < 0.08 and kind in ("sig", "tanh", "ssign", "lin", "switch", "relu", "gate")
            s["x"] = [val(2000 if big else 2) for _ in range(m.indim)]
            if kind in ("softmax", "psoftmax") and rng.random() < 0.2:
                s["x"] = [val(400) for _ in range(m.indim)]
            if kind == "gate" and big:
                s["x"] = s["x"][:n] + [val(2) for _ in range(n)]
            if kind == "table":
                s["x"] = [rng.randrange(c["rows"]) * 4096, rng.randrange(c["cols"]) * 4096]
            if kind == "bern":
                s["x"] = [rng.randint(0, 64) * 64 for _ in range(m.indim)]
            x = q(s["x"])
            fn = lambda: FXL(net.activate(x if rng.random() < 0.5 else numpy.array(x)))
            if c["wrap"] == "rec":
                done += 1
            else:
                done, back = 1, 0
        elif op == "back":
            s["e"] = [val(2) for _ in range(m.outdim)]
            fn = lambda: FXL(net.backActivate(numpy.array(q(s["e"]))))
            back += 1
            passes += 1
        elif op == "reset":
            def fn():
                net.reset()
                return []
            done = back = 0
        elif op == "resetd":
            def fn():
                m.resetDerivatives()
                return []
            passes = 0
        elif op == "setp":
            s["x"] = params()

            def fn():
                if kind == "gauss" and rng.random() < 0.5:
                    m.setSigma(q(s["x"]))
                else:
                    m.params[:] = q(s["x"])
                return []
        elif op == "state":
            z = True
            s["x"] = [rng.choice([-1, 1]) * rng.randint(20, 120) * 64 for _ in range(c["len"])]

            def fn():
                if rng.random() < 0.5:
                    m.drawRandomWeights()
                    ex.params[:] = [round(v * 64) / 64.0 for v in numpy.clip(ex.params, -4, 4)]
                else:
                    ex.params[:] = q([val(1) for _ in ex.params])
                s["w"] = FXL(ex.params)
                m.setState(q(s["x"]))
                return []
        elif op == "put":
            s["x"] = [rng.randrange(c["rows"]), rng.randrange(c["cols"]), val(2)]

            def fn():
                m.updateValue(s["x"][0], s["x"][1], s["x"][2] / 4096.0)
                return []
        elif op == "get":
            s["x"] = [rng.randrange(c["rows"]), rng.randrange(c["cols"])]
            fn = lambda: FXL([m.getValue(*s["x"])])
        elif op == "fn":
            s["f"] = rng.choice(FNS)
            s["x"] = [val(2) for _ in range(rng.randint(1, 3))]
            a = numpy.array(q(s["x"]))
            fn = lambda: FXL(getattr(functions, s["f"])(a))
        s["err"], s["ret"] = guarded(fn, [])
        if s["ret"] is None:
            s["ret"] = []
        snap(s)
        if s["err"]:
            break
    return tr


def random_(job):
    tr = []
    for k in range(job.args["count"]):
        e, t = guarded(lambda: one(job, job.rng, k))
        if e:
            t = {"name": "mod-%d" % k, "cfg": {"k": "lin", "n": 1, "p0": []}, "steps": [
                {"op": "reset", "err": "building: " + e, "ret": [], "params": [], "derivs": [], "pdim": 0}]}
        tr.append(t)
    for k in range(0, len(tr), 500):
        job.write("mod%d" % (k // 500), tr[k:k + 500])


def replay(job):
    tr = []
    for k, b in enumerate(job.behaviours):
        c = b["cfg"]
        steps = []

        def go():
            m, net, _ = make(c)
            if m.paramdim:
                m.params[:] = q(c["p0"])
            for op in b["ops"]:
                s = dict(op, ret=[], y=[])

                def fn():
                    if op["op"] == "act":
                        return FXL(net.activate(q(op["x"])))
                    if op["op"] == "back":
                        return FXL(net.backActivate(numpy.array(q(op["e"]))))
                    if op["op"] == "reset":
                        net.reset()
                    else:
                        m.resetDerivatives() if m.paramdim else None
                    return []
                s["err"], s["ret"] = guarded(fn, [])
                s["params"], s["derivs"] = (FXL(m.params), FXL(m.derivs)) if m.paramdim else ([], [])
                s["pdim"] = I(m.paramdim)
                steps.append(s)
                if s["err"]:
                    break
        e, _ = guarded(go)
        if e:
            steps.append({"op": "reset", "err": e, "ret": [], "params": [], "derivs": [], "pdim": 0})
        tr.append({"name": "beh-%d" % k, "cfg": c, "steps": steps})
    job.write("beh", tr)


if __name__ == "__main__":
    main({"random": random_, "replay": replay})
