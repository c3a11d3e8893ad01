"""Masked parameters and cheap copies over a linear network (see specs/Evolvable.tla)."""
from common import *
from pybrain.structure.evolvables.maskedmodule import MaskedModule
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
import numpy as np


class Tok(object):
    def __init__(self):
        self.t = {0.0: 0}

    def __call__(self, xs):
        res = []
        for x in np.asarray(xs, dtype=float).reshape(-1):
            x = float(x)
            if x not in self.t:
                self.t[x] = len(self.t) + 100
            res.append(self.t[x])
        return res


def run(rng, kind, name, length):
    tok = Tok()
    n = rng.randint(1, 6)
    net = FeedForwardNetwork()
    i, o = LinearLayer(1), LinearLayer(n)
    net.addInputModule(i)
    net.addOutputModule(o)
    net.addConnection(FullConnection(i, o))
    net.sortModules()
    mx = rng.choice([None, rng.randint(1, n)]) if kind == "masked" else None
    kw = {}
    if kind == "masked":
        if mx is not None:
            kw["maxComplexity"] = mx
        kw["maskOnProbability"] = rng.choice([0.0, 0.2, 0.5, 1.0])
        kw["maskFlipProbability"] = rng.choice([0.05, 0.3, 0.9])
        cl = rng.choice([MaskedModule, MaskedParameters])
        objs = [cl(net, **kw)]
    else:
        objs = [CheaplyCopiable(net)]
    actable = hasattr(objs[0], "activate")

    def mask(x):
        return [bool(b) for b in x.mask] if kind == "masked" else [True] * n
    v0 = tok(objs[0].params)
    m0 = mask(objs[0])
    q = iter(v0)
    vals = [next(q, -1) if m else -1 for m in m0]
    cfg = {"kind": kind, "n": n, "max": n if mx is None else mx, "mask0": m0, "v0": vals,
           "w0": [v if m else 0 for v, m in zip(vals, m0)] if kind == "masked" else tok(net.params)}
    steps = []
    for k in range(length):
        op = rng.choice(["set", "set", "copy" if len(objs) < 3 else "set", "randomize", "act" if actable else "set"] + (["topo"] * 3 if kind == "masked" else []))
        oi = rng.randrange(len(objs))
        x = objs[oi]
        s = {"op": op, "o": oi + 1, "v": [], "mask0": [], "ret": []}

        def do():
            if op == "set":
                v = np.array([float(rng.randint(-9, 9)) / 4 for _ in range(len(x.params))])
                s["v"] = tok(v)
                x._setParameters(v)
            elif op == "randomize":
                x.randomize()
                s["v"] = tok(x.params)
            elif op == "topo":
                x.topologyMutate()
            elif op == "act":
                s["ret"] = tok(x.activate([1.0]))
            elif op == "copy":
                objs.append(x.copy())
        s["err"], _ = guarded(do)
        ms = [mask(y) for y in objs]
        s["mask"] = ms
        s["params"] = [tok(y.params) for y in objs]
        s["dim"] = [I(y.paramdim) for y in objs]
        s["cont"] = [tok(y.pcontainer.params) for y in objs] if kind == "masked" else [tok(net.params)]
        if kind == "masked" and objs[0].pcontainer is not net:
            raise AssertionError("the wrapped module was replaced")
        if op in ("topo", "randomize"):
            s["newmask"] = ms[oi]
        steps.append(s)
        if s["err"]:
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def random_(job):
    tr = [run(job.rng, ["masked", "masked", "cheap"][k % 3], "evo-%d" % k, 25) for k in range(job.args["count"])]
    job.write("evo", tr)


if __name__ == "__main__":
    main({"random": random_})
