"""Driver for value-based reinforcement learning (spec RLearn)."""
from common import *
from pybrain.rl.agents import LearningAgent
from pybrain.rl.learners.valuebased import ActionValueTable, ActionValueNetwork, Q, SARSA, QLambda, NFQ
from pybrain.rl.learners.valuebased.linearfa import Q_LinFA, QLambda_LinFA, SARSALambda_LinFA, LSPI, LSTDQLambda, GQLambda
from pybrain.rl.explorers import BoltzmannExplorer, EpsilonGreedyExplorer, DiscreteStateDependentExplorer
from pybrain.datasets import ReinforcementDataSet
from pybrain.supervised.trainers import BackpropTrainer

U = 65536
CFG = {"alg": "q", "na": 2, "ns": 2, "nf": 1, "alpha": 8, "gamma": 8, "lam": 12, "t0": [], "lr": 0, "bound": 0}


def fu(x):
    return FX(x, U)


def params(t):
    return FXL(t.params, U)


def step0(op):
    return {"op": op, "err": "", "s": 0, "a": 0, "r": 0, "t": [], "n": 1, "greedy": False, "v": [], "given": 0, "off": False, "eps": 0, "eps2": 0, "decay": 16}


def learner(c, rng):
    cls = {"q": Q, "sarsa": SARSA, "ql": QLambda}[c["alg"]]
    kw = {"alpha": c["alpha"] / 16., "gamma": c["gamma"] / 16.}
    if c["alg"] == "ql":
        kw["qlambda"] = c["lam"] / 16.
    return cls(**kw)


def table(rng, k, ops=None, cfg=None):
    c = dict(CFG)
    if cfg:
        c.update(cfg)
    else:
        c["alg"], c["ns"], c["na"] = rng.choice(["q", "sarsa", "ql"]), rng.randint(1, 5), rng.randint(1, 4)
        c["alpha"], c["gamma"], c["lam"] = rng.choice([1, 4, 8, 12, 16]), rng.choice([0, 4, 8, 12, 14]), rng.choice([0, 4, 8, 12, 15, 16])
        lvl = rng.choice([0, 1, 2])
        c["t0"] = [rng.randint(-lvl, lvl) * 16384 for _ in range(c["ns"] * c["na"])]
    steps = []
    mode = rng.choice(["agent", "agent", "dataset"]) if ops is None else "dataset"
    online = mode == "agent" and c["alg"] != "ql" and rng.random() < .3
    T = {"name": "table-%s-%s%s-%d" % (c["alg"], mode, "-online" if online else "", k), "cfg": c, "steps": steps}
    tab = ActionValueTable(c["ns"], c["na"])
    if len(set(c["t0"])) == 1 and rng.random() < .5:
        tab.initialize(c["t0"][0] / float(U))
    else:
        tab.params[:] = numpy.array(c["t0"]) / float(U)
    ln = learner(c, rng)
    eps = rng.choice([0., 0.5, 1.])
    expl = rng.choice(["eg", "eg", "boltz0", "boltz", "dsde"])
    if expl == "eg":
        ln.explorer.epsilon = eps
    else:
        ln.explorer = {"boltz0": lambda: BoltzmannExplorer(tau=0.), "boltz": lambda: BoltzmannExplorer(tau=1.), "dsde": DiscreteStateDependentExplorer}[expl]()
    greedy = (expl == "eg" and eps == 0) or expl == "boltz0"
    if mode == "agent":
        ag = LearningAgent(tab, ln)
        if online:
            ln.batchMode = False
        if rng.random() < .15:
            ag.learning = False
            greedy = True
    else:
        ds = ReinforcementDataSet(1, 1)
        ln.module = tab
        ln.dataset = ds
    fresh = True
    n = len(ops) if ops is not None else rng.randint(5, 30)
    count = 0
    for i in range(n):
        if ops is not None:
            o = ops[i]
            op = o["op"]
        else:
            r = rng.random()
            op = "step" if r < .7 else "episode" if r < .78 else "learn" if r < .9 else "values" if r < .96 else "reset" if r < .98 else "explore"
            o = {"s": rng.randrange(c["ns"]), "a": rng.randrange(c["na"]), "r": rng.randint(-8, 8) * U // 8}
            if mode == "agent" and op == "explore":
                op = "values"
        if op == "episode" and fresh or op == "learn" and not count or op == "learn" and online:
            op = "step"
            o = {"s": o["s"], "a": o["a"], "r": o["r"]}
        s = step0(op)
        s["s"] = o["s"]

        def f():
            if op == "step":
                if mode == "agent":
                    ag.integrateObservation(numpy.array([float(o["s"])]))
                    s["a"], s["r"], s["greedy"] = I(ag.getAction()), o["r"], greedy
                    ag.giveReward(o["r"] / float(U))
                else:
                    s["a"], s["r"] = o["a"], o["r"]
                    ds.addSample([o["s"]], [o["a"]], [o["r"] / float(U)])
            elif op == "episode":
                ag.newEpisode() if mode == "agent" else ds.newSequence()
            elif op == "reset":
                ag.reset() if mode == "agent" else ds.clear()
            elif op == "learn":
                s["n"] = rng.choice([1, 1, 2, 3]) if ops is None else 1
                if mode == "agent":
                    if not ag.learning:
                        s["n"] = 0
                        ag.learn()
                    else:
                        ag.learn(s["n"])
                elif rng.random() < .5:
                    ln.learnOnDataset(ds, s["n"])
                else:
                    ln.learnEpisodes(s["n"])
            elif op == "values":
                st = s["s"] if rng.random() < .5 else numpy.array([float(s["s"])])
                s["v"] = FXL(tab.getActionValues(st), U)
                s["a"] = I(tab.getMaxAction(st) if rng.random() < .5 else tab.activate([s["s"]]))
            elif op == "explore":
                e = EpsilonGreedyExplorer(rng.choice([0., 0.25, 1.]), rng.choice([1., 0.5, 0.75])) if rng.random() < .5 else BoltzmannExplorer(rng.choice([0., 1.]))
                e.module = tab
                s["given"] = rng.randrange(c["na"])
                if isinstance(e, EpsilonGreedyExplorer):
                    s["off"], s["eps"], s["decay"] = e.epsilon == 0, FX(e.epsilon), I(e.decay * 16)
                else:
                    s["greedy"] = e.tau == 0
                s["a"] = I(e.activate(numpy.array([float(s["s"])]), numpy.array([float(s["given"])])))
                if isinstance(e, EpsilonGreedyExplorer):
                    s["eps2"] = FX(e.epsilon)
            s["t"] = params(tab)
        s["err"], _ = guarded(f)
        if op == "step":
            fresh, count = False, count + 1
        elif op == "episode":
            fresh = True
        elif op == "reset":
            fresh, count = True, 0
        steps.append(s)
        if s["err"]:
            break
        if online and op == "step" and ag.learning:
            s = step0("online")

            def f():
                ag.learn()
                s["t"] = params(tab)
            s["err"], _ = guarded(f)
            steps.append(s)
    return T


DIST = {1: [[16]], 2: [[16, 0], [8, 8], [4, 12]], 4: [[4, 4, 4, 4], [0, 8, 0, 8], [8, 4, 4, 0]]}


def linear(rng, k):
    c = dict(CFG)
    c["alg"], c["nf"] = rng.choice(["linq", "linql", "linsarsa", "lspi", "lstdq", "gq"]), rng.randint(1, 3)
    c["na"] = rng.choice([1, 2, 4]) if c["alg"] in ("gq", "lstdq") else rng.randint(1, 3)
    if c["na"] == 4:
        c["nf"] = min(c["nf"], 2)
    c["gamma"], c["lam"], c["alpha"] = rng.choice([0, 8, 12]), rng.choice([0, 8, 12]), rng.choice([4, 16])
    ls = c["alg"] in ("lspi", "lstdq")
    c["t0"] = [0 if ls else rng.randint(-4, 4) * 8192 for _ in range(c["na"] * c["nf"])]
    steps = []
    T = {"name": "linear-%s-%d" % (c["alg"], k), "cfg": c, "steps": steps}
    kw = {"rewardDiscount": c["gamma"] / 16., "learningRate": rng.choice([.5, .25, .125])}
    if c["alg"] not in ("linq", "lspi"):
        kw["_lambda"] = c["lam"] / 16.
    if ls:
        kw["randomInit"] = False
    if c["alg"] == "lspi":
        kw["lazyInversions"] = rng.choice([None, 1])
    if c["alg"] == "gq":
        kw["sec_learningRate"] = c["alpha"] / 16.
    cls = {"linq": Q_LinFA, "linql": QLambda_LinFA, "linsarsa": SARSALambda_LinFA, "lspi": LSPI, "lstdq": LSTDQLambda, "gq": GQLambda}[c["alg"]]
    l = cls(c["na"], c["nf"], **kw)
    l._theta[:] = numpy.array(c["t0"]).reshape(c["na"], c["nf"]) / float(U)
    c["lr"] = fu(l.learningRate)

    def th():
        return FXL(l._theta, U)
    for _ in range(rng.randint(3, 15)):
        r = rng.random()
        s = step0("lin" if r < .75 else "linnew" if r < .85 else "linq")
        fe = [rng.randint(-2, 2) for _ in range(c["nf"])]
        s.update(f=fe, f2=[rng.randint(-2, 2) for _ in range(c["nf"])], a=rng.randrange(c["na"]), a2=rng.randrange(c["na"]), r=rng.randint(-8, 8) * U // 8,
                 lr=0, p=rng.choice(DIST[c["na"]]) if c["na"] in DIST else [], w=[])

        def f():
            if s["op"] == "lin":
                args = [numpy.array(s["f"], float), s["a"], s["r"] / float(U), numpy.array(s["f2"], float)]
                if l.passNextAction:
                    args.append(s["a2"])
                kw = {}
                if c["alg"] in ("gq", "lstdq"):
                    kw["learned_policy"] = lambda x: numpy.array(s["p"]) / 16.
                if c["alg"] == "gq":
                    kw["behavior_policy"] = lambda x: numpy.ones(c["na"]) / c["na"]
                s["lr"] = fu(l.learningRate)
                l._updateWeights(*args, **kw)
                if c["alg"] == "gq":
                    s["w"] = FXL(l._sec_weights, U)
            elif s["op"] == "linnew":
                l.newEpisode()
                s["lr"] = fu(l.learningRate)
            else:
                x = numpy.array(s["f"], float)
                s["v"], s["a"] = FXL(l._qValues(x), U), I(l._greedyAction(x))
            s["t"] = th()
        s["err"], _ = guarded(f)
        if s["t"] and max(abs(x) for x in s["t"] + s["w"]) > 8 * U:
            break
        steps.append(s)
        if s["err"]:
            break
    return T


def nfq(rng, k):
    c = dict(CFG)
    ds_, c["na"] = rng.randint(1, 3), rng.randint(1, 4)
    s = step0("nfq")
    s.update(q=[], a=[], r=[], x=[], inp=[], tgt=[])
    T = {"name": "nfq-%d" % k, "cfg": c, "steps": [s]}
    got = []

    def f():
        net = ActionValueNetwork(ds_, c["na"])
        net.network.params[:] = [rng.randint(-64, 64) / 64. for _ in range(net.network.paramdim)]
        data = ReinforcementDataSet(ds_, 1)
        for e in range(rng.randint(1, 3)):
            data.newSequence()
            xs, qs, as_, rs = [], [], [], []
            for _ in range(rng.randint(1, 4)):
                x, a, r = numpy.array([rng.randint(-64, 64) / 32. for _ in range(ds_)]), rng.randrange(c["na"]), rng.randint(-8, 8) / 8.
                data.addSample(x, [a], [r])
                xs.append(FXL(x))
                qs.append(FXL(net.getActionValues(x)))
                as_.append(a)
                rs.append(FX(r))
                b = I(net.getMaxAction(x))
                if qs[-1][b] < max(qs[-1]) - 1:
                    raise Malformed("greedy action of the network")
                if abs(FX(net.getValue(x, a)) - qs[-1][a]) > 1:
                    raise Malformed("value of an action")
            s["x"].append(xs)
            s["q"].append(qs)
            s["a"].append(as_)
            s["r"].append(rs)
        ln = NFQ(maxEpochs=1)
        ln.module = net
        ln.dataset = data
        orig = BackpropTrainer.trainUntilConvergence
        try:
            BackpropTrainer.trainUntilConvergence = lambda self, dataset=None, **kw: got.append(dataset or self.ds)
            if sum(len(x) for x in s["x"]) > len(s["x"]):
                ln.learn()
        finally:
            BackpropTrainer.trainUntilConvergence = orig
        for d in got:
            s["inp"] += [FXL(x) for x in d["input"]]
            s["tgt"] += [FX(x[0]) for x in d["target"]]
    s["err"], _ = guarded(f)
    return T


def run(job):
    rng, out = job.rng, []
    for k in range(job.args["count"]):
        r = rng.random()
        out.append(table(rng, k) if r < .75 else linear(rng, k) if r < .96 else nfq(rng, k))
    job.write("rlearn", out)


def replay(job):
    job.write("rlearn_gen", [table(job.rng, k, b["ops"], b["cfg"]) for k, b in enumerate(job.behaviours)])


main({"random": run, "replay": replay})
