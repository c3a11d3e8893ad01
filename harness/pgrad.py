"""Driver for policy-gradient learners and reward-weighted regression (spec PGrad)."""
from common import *
from pybrain.rl.agents import LearningAgent
from pybrain.rl.learners.directsearch.reinforce import Reinforce
from pybrain.rl.learners.directsearch.enac import ENAC
from pybrain.rl.learners.directsearch.policygradient import PolicyGradientLearner
from pybrain.rl.learners.directsearch.rwr import RWR
from pybrain.rl.explorers.continuous.normal import NormalExplorer
from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
from pybrain.rl.environments.mazes.tasks.pomdp import POMDPTask
from pybrain.structure import FeedForwardNetwork, LinearLayer, BiasUnit, FullConnection
from pybrain.tools.shortcuts import buildNetwork
from pybrain.tools.functions import expln

CFG = {"kind": "pg", "alg": "reinforce", "ni": 1, "na": 1, "b": 0, "expl": "normal", "alpha": 3, "mom": 0, "disc": 4096, "minr": 0, "bound": 0}


class Coarse(NormalExplorer):
    """a user's explorer whose perturbed actions lie on a grid, so that they can be observed exactly"""

    def _forwardImplementation(self, inbuf, outbuf):
        NormalExplorer._forwardImplementation(self, inbuf, outbuf)
        outbuf[:] = numpy.round(outbuf * 16) / 16.


class Given(PolicyGradientLearner):
    def calculateGradient(self):
        return numpy.array(self.g, dtype=float)


def policy(c, rng):
    """a linear policy; returns it and the positions of its canonical parameters in its parameter vector"""
    how = rng.random()
    if how < .5:
        net = buildNetwork(c["ni"], c["na"], bias=bool(c["b"]))
    else:
        net = FeedForwardNetwork()
        i, o = LinearLayer(c["ni"], name=rng.choice("ax")), LinearLayer(c["na"], name=rng.choice("by"))
        net.addInputModule(i)
        net.addOutputModule(o)
        net.addConnection(FullConnection(i, o))
        if c["b"]:
            u = BiasUnit(name=rng.choice("cz"))
            net.addModule(u)
            net.addConnection(FullConnection(u, o))
        net.sortModules()
    old = net.params.copy()
    lay = []
    for j in range(c["na"]):
        for i in range(c["ni"] + c["b"]):
            lay.append(None)
    # which weight is where: by what the network computes
    for k in range(len(net.params)):
        net.params[:] = 0
        net.params[k] = 1.
        for i in range(c["ni"] + c["b"]):
            x = numpy.zeros(c["ni"])
            if i < c["ni"]:
                x[i] = 1.
            d = net.activate(x) - (net.activate(numpy.zeros(c["ni"])) if i < c["ni"] else 0)
            for j in range(c["na"]):
                if d[j] == 1:
                    lay[j * (c["ni"] + c["b"]) + i] = k
    net.params[:] = old
    return net, lay


def config(rng):
    c = dict(CFG)
    c["alg"] = rng.choice(["reinforce", "reinforce", "enac", "given"])
    c["ni"], c["na"], c["b"] = rng.randint(1, 3), rng.choice([1, 1, 2]), rng.choice([0, 1])
    if c["alg"] == "enac":
        c["ni"], c["na"] = rng.choice([1, 1, 2]), 1
    c["alpha"] = rng.choice([0, 1, 2]) if c["alg"] == "enac" else rng.choice([3, 5, 7])
    c["mom"] = rng.choice([0, 0, 8])
    return c


def trace(rng, k, cfg=None, ops=None):
    c = cfg or config(rng)
    steps = []
    T = {"name": "%s-%d" % (c["alg"], k), "cfg": c, "steps": steps}
    np_ = c["na"] * (c["ni"] + c["b"]) + c["na"]
    net, lay = policy(c, rng)
    lay = lay + [len(net.params) + j for j in range(c["na"])]
    ln = {"reinforce": Reinforce, "enac": ENAC, "given": Given}[c["alg"]]()
    ag = LearningAgent(net, ln)
    if rng.random() < .5:
        ln.learningRate = 2. ** -c["alpha"]
    else:
        ln.gd.alpha = 2. ** -c["alpha"]
    ln.gd.momentum = c["mom"] / 16.
    st = {"expl": c["expl"], "steps": 0, "open": 0, "eps": 0}

    def P():
        return numpy.concatenate([net.params, ln.explorer.params])[lay]

    def base(op):
        return {"op": op, "err": "", "obs": [], "a": [], "r": 0, "nrows": 0, "row": [], "rows": [], "p": [], "em": [], "expl": st["expl"],
                "learning": True, "renew": False, "g": [], "big": False, "tol": 0}

    def row(x):
        return FXL(numpy.asarray(x)[lay])

    def emit(op, f):
        s = base(op)

        def h():
            f(s)
            s["nrows"], s["p"] = len(ln.loglh), FXL(P())
            if st["expl"] == "sde":
                s["em"] = [FXL(r) for r in numpy.asarray(ln.explorer.explmatrix)]
        s["err"], _ = guarded(h)
        steps.append(s)
        return not s["err"]

    def setp(renew, kind):
        def f(s):
            if renew:
                s["renew"], s["expl"] = True, kind
                st["expl"] = kind
                ln.explorer = Coarse(c["na"]) if kind == "normal" else StateDependentExplorer(c["ni"], c["na"])
            net.params[:] = [rng.randint(-6, 6) / 8. for _ in net.params]
            ln.explorer.sigma = [rng.randint(-8, 6) / 8. for _ in range(c["na"])]
            if kind == "sde":
                ln.explorer.newEpisode()
        return f

    if not emit("set", setp(True, rng.choice(["normal", "normal", "sde"]))):
        return T
    bad = False
    script = ops
    n = len(ops) if ops is not None else rng.randint(6, 26)
    dead = rng.randrange(c["ni"]) if rng.random() < .2 else -1
    for q in range(n):
        if script is not None:
            op = script[q]["op"]
        else:
            r = rng.random()
            op = "act" if r < .68 else "episode" if r < .84 else "learn" if r < .9 else "reset" if r < .93 else "set" if r < .96 else "renew" if r < .98 else "eval"
        if op == "act" and (st["open"] >= 5 or st["eps"] >= 5 and st["open"] >= 4):
            op = "learn"
        if op == "episode" and (not st["open"] or st["eps"] >= 4):
            op = "learn" if st["open"] else "act"
        if op == "learn" and not st["open"]:
            op = "act"
        if op == "act":
            def f(s):
                ob = [rng.randint(-2, 2) for _ in range(c["ni"])]
                if script is not None:
                    ob[0] = script[q]["o"]
                if dead >= 0:
                    ob[dead] = 0
                s["obs"], s["r"] = ob, rng.randint(-3, 3) if script is None else script[q]["r"]
                ag.integrateObservation(numpy.array(ob, dtype=float))
                s["a"] = FXL(ag.getAction())
                ag.giveReward(float(s["r"]) if rng.random() < .5 else numpy.array([float(s["r"])]))
                s["row"] = row(ln.loglh["loglh"][-1])
            ok = emit("act", f)
            if st["open"] == 0:
                st["eps"] += 1
            st["open"] += 1
        elif op == "episode":
            ok = emit("episode", lambda s: ag.newEpisode())
            st["open"] = 0
        elif op == "reset":
            ok = emit("reset", lambda s: ag.reset())
            st["open"] = st["eps"] = 0
        elif op == "set":
            if st["expl"] == "sde":
                continue
            ok = emit("set", setp(False, st["expl"]))
        elif op == "renew":
            if st["open"] or st["eps"]:
                if not emit("reset", lambda s: ag.reset()):
                    break
                st["open"] = st["eps"] = 0
            ok = emit("set", setp(True, rng.choice(["normal", "sde"])))
        elif op == "eval":
            def f(s):
                ag.learning, ag.logging = False, False
                ob = [rng.randint(-2, 2) for _ in range(c["ni"])]
                s["obs"], s["learning"] = ob, False
                ag.integrateObservation(numpy.array(ob, dtype=float))
                s["a"] = FXL(ag.getAction())
                ag.giveReward(1.)
                if rng.random() < .5:
                    ag.learn()
                ag.learning, ag.logging = True, True
            ok = emit("act", f)
        else:
            def f(s):
                if c["alg"] == "given":
                    m = rng.choice([3, 40, 900, 3000])
                    s["g"] = [rng.randint(-m, m) for _ in range(np_)]
                    ln.g = numpy.zeros(np_)
                    ln.g[lay] = s["g"]
                    s["op"] = "given"
                if c["alg"] == "enac":
                    # the regression is only well determined with enough, different episodes
                    X = numpy.ones((ln.dataset.getNumSequences(), np_ + 1))
                    rows, at = numpy.asarray(ln.loglh["loglh"]), 0
                    for e in range(len(X)):
                        m = len(ln.dataset.getSequence(e)[0])
                        X[e, :-1] = rows[at:at + m].sum(0)
                        at += m
                    sv = numpy.linalg.svd(X, compute_uv=False)
                    s["big"] = bool(sv.min() < 1e-3 * sv.max() and sv.min() > 1e-12 * sv.max())
                how = rng.random()
                if how < .5:
                    ag.learn()
                elif how < .8:
                    ln.learn()
                else:
                    ln.learnOnDataset(ag.history)
                s["rows"] = [row(x) for x in ln.loglh["loglh"]] if c["alg"] != "given" else []
                if numpy.abs(P()).max() > 50:
                    s["big"] = True
            ok = emit("learn", f)
            if ok and (rng.random() < .7 or numpy.abs(P()).max() > 3):
                ok = emit("reset", lambda s: ag.reset())
                st["open"] = st["eps"] = 0
                if ok and (numpy.abs(P()).max() > 1.5 or rng.random() < .5):
                    ok = emit("set", setp(rng.random() < .3 or st["expl"] == "sde", rng.choice(["normal", st["expl"]]) if st["expl"] == "normal" else "sde"))
        if not ok:
            break
    return T


def spread(rng, k):
    c = dict(CFG)
    steps = []
    T = {"name": "spread-%d" % k, "cfg": c, "steps": steps}
    for kind in ("normal", "sde"):
        for sg in (-1.5, -.25, 0., .75, 3.):
            s = {"op": "spread", "err": "", "g": [], "tol": 0}

            def f():
                n, z = 1500, []
                e = NormalExplorer(2, sg) if kind == "normal" else StateDependentExplorer(3, 2, sg)
                if rng.random() < .5:
                    e.sigma = [sg, sg]
                x = numpy.array([1., -2., .5])
                for _ in range(n):
                    e.newEpisode()
                    a = numpy.array([.5, -3.])
                    d = (e.activate(x, a) - a) / expln(numpy.array([sg]))[0]
                    z.extend(d / (1. if kind == "normal" else numpy.sqrt(numpy.dot(x, x))))
                z = numpy.array(z)
                s["g"] = [FX(z.mean()), FX((z ** 2).mean())]
                s["tol"] = FX(6 * numpy.sqrt(2. / len(z)))
            s["err"], _ = guarded(f)
            steps.append(s)
    return T


class Chain(POMDPTask):
    """a small episodic decision process with declared transitions and rewards; keeps what happens in it"""

    def __init__(self, no, na, nxt, rew, mx, minr, disc, rec):
        self.observations, self.actions, self.maxSteps, self.minReward, self.discount = no, na, mx, minr, disc
        self.nxt, self.rew, self.rec = nxt, rew, rec
        self.steps = self.s = 0
        self.r = 0

    def reset(self):
        self.steps = self.s = 0
        self.rec.append({"o": [], "a": [], "r": [], "p": []})

    def getObservation(self):
        o = numpy.zeros(self.observations)
        o[self.s] = 1.
        return o

    def performAction(self, a):
        a = I(a)
        self.rec[-1]["o"].append(self.s)
        self.rec[-1]["a"].append(a)
        self.r = self.rew[self.s][a]
        self.s = self.nxt[self.s][a]
        self.steps += 1

    def getReward(self):
        self.rec[-1]["r"].append(self.r)
        return float(self.r)

    def isFinished(self):
        return self.steps >= self.maxSteps or self.steps > 0 and self.s == 0


def rwr(rng, k):
    c = dict(CFG)
    no, na = rng.randint(2, 4), rng.randint(2, 3)
    c["kind"], c["disc"], c["minr"] = "rwr", rng.choice([4096, 2048, 3072]), -rng.randint(30, 60)
    rec, steps = [], []
    T = {"name": "rwr-%d" % k, "cfg": c, "steps": steps}
    task = Chain(no, na, [[rng.randrange(no) for _ in range(na)] for _ in range(no)],
                 [[rng.randint(-3, 3) for _ in range(na)] for _ in range(no)], rng.randint(1, 5), c["minr"], c["disc"] / 4096., rec)
    from pybrain.structure import SoftmaxLayer
    net = buildNetwork(no, 2, na, outclass=SoftmaxLayer, bias=False, recurrent=True)
    net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0']))
    net.sortModules()
    if rng.random() < .3:
        net.params[:] *= 12
    acts, inner = [], net.activate

    def activate(x):
        y = inner(x)
        rec[-1]["p"].append(FXL(y, 2 ** 26))
        return y
    net.activate = activate
    bs, gr = rng.randint(3, 8), rng.randint(1, 3)
    L = RWR(net, task, batchSize=bs, greedyRuns=gr, verbose=False, maxEpochs=1, continueEpochs=1)

    def seqs(ds):
        out = []
        for q in ds:
            out.append([list(x) for x in q])
        return out

    def hot(v):
        v = IL(v)
        if sorted(v) != [0] * (len(v) - 1) + [1]:
            raise Malformed("not one-hot")
        return v.index(1)
    for b in range(rng.randint(1, 3)):
        s = {"op": "batch", "err": "", "eps": [], "gr": [], "raw": [], "wts": [], "tau": 0, "ravg": 0, "lavg": 0, "iavg": 0, "gavg": 0, "toteps": 0, "totsteps": 0}

        def f():
            del rec[:]
            # the supervised part also activates the network; only what happens within the task is recorded
            orig = L.bp.trainUntilConvergence

            def tr(*a, **kw):
                del net.activate
                try:
                    return orig(*a, **kw)
                finally:
                    net.activate = activate
            L.bp.trainUntilConvergence = tr
            L.learn(1)
            del L.bp.trainUntilConvergence
            s["eps"], s["gr"] = rec[:bs], rec[bs:]
            if len(s["gr"]) != gr:
                raise Malformed("%d greedy runs" % len(s["gr"]))
            for q in seqs(L.rawDs):
                s["raw"].append([{"o": hot(x[0]), "a": hot(x[1]), "v": FX(x[2])} for x in q])
            for q in seqs(L.weightedDs):
                s["wts"].append([{"o": hot(x[0]), "a": hot(x[1]), "w": FXL(x[2])} for x in q])
            s["tau"], s["ravg"], s["lavg"], s["iavg"], s["gavg"] = FX(L.tau), FX(L.rewardAvg[-1]), FX(L.lengthAvg[-1]), FX(L.initr0Avg[-1]), FX(L.greedyAvg[-1])
            s["toteps"], s["totsteps"] = I(L.totalEpisodes), I(L.totalSteps)
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
    return T


def run(job):
    rng = job.rng
    n = job.args.get("count", 100)
    out = [spread(rng, 0)]
    for k in range(n):
        out.append(rwr(rng, k) if rng.random() < .08 else trace(rng, k))
    for q in range(0, len(out), 400):
        job.write("pg%d" % (q // 400), out[q:q + 400])


def replay(job):
    rng, out = job.rng, []
    for k, b in enumerate(job.behaviours):
        c = dict(b["cfg"])
        c["alg"] = rng.choice(["reinforce", "reinforce", "enac"])
        if c["alg"] == "enac":
            c["alpha"] = 1
        out.append(trace(rng, k, c, b["ops"]))
    for q in range(0, len(out), 400):
        job.write("pr%d" % (q // 400), out[q:q + 400])


if __name__ == "__main__":
    main({"random": run, "replay": replay})
