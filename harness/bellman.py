"""Driver for model-based reinforcement learning (spec Bellman)."""
from common import *
from pybrain.rl.learners.modelbased import policyiteration as pi, leastsquares as ls

U = 65536


def fm(m):
    return [FXL(r, U) for r in numpy.asarray(m, float)]


def simplex(rng, n, tot):
    r = rng.random()
    if r < .4:
        x = [0] * n
        x[rng.randrange(n)] = tot
        return x
    if r < .6:
        x = [0] * n
        for _ in range(4):
            x[rng.randrange(n)] += tot // 4
        return x
    cuts = sorted(rng.randint(0, tot) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [tot])]


def config(rng):
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    Ts = [[simplex(rng, n, 16) for _ in range(n)] for _ in range(m)]
    for a in range(1, m):
        if rng.random() < .25:
            Ts[a] = [list(r) for r in Ts[rng.randrange(a)]]
    return {"n": n, "m": m, "Ts": Ts, "R": [rng.randint(-3, 3) for _ in range(n)], "gamma": rng.choice([0, 4, 8, 12, 14, 15])}


class Model(object):
    def __init__(self, c):
        self.c = c
        self.Ts = [numpy.array(T) / 16. for T in c["Ts"]]
        self.R = numpy.array(c["R"], float)
        self.g = c["gamma"] / 16.

    def same(self):
        return all((T * 16 == numpy.array(O)).all() for T, O in zip(self.Ts, self.c["Ts"])) and bool((self.R == numpy.array(self.c["R"])).all())


def policy(rng, c, tot=16):
    return numpy.array([simplex(rng, c["m"], tot) for _ in range(c["n"])]) / float(tot)


def base(op):
    return {"op": op, "err": "", "same": True}


class Scripted(Exception):
    pass


def iterate(M, steps, P0, mx, script, default):
    c = M.c
    s = base("start")
    s.update(P=fm(P0 if P0 is not None else numpy.ones((c["n"], c["m"])) / c["m"]), max=mx)
    steps.append(s)
    it = iter(script)

    def ev(T):
        v4 = next(it)
        e = base("eval")
        e.update(T=fm(T), v4=list(v4))
        steps.append(e)
        return numpy.array(v4) / 4.
    end = base("end")
    kw = {} if default else {"maxIters": mx}
    if P0 is not None:
        kw["initpolicy"] = P0.copy()

    def f():
        P, T = pi.policyIteration(M.Ts, M.R, M.g, VEvaluator=ev, **kw)
        end["P"], end["T"], end["same"] = fm(P), fm(T), M.same()
    end["err"], _ = guarded(f)
    steps.append(end)


def unimodular(rng, n):
    F = numpy.eye(n)
    for _ in range(rng.randint(0, 2)):
        i, j = rng.randrange(n), rng.randrange(n)
        if i != j:
            F[i] += F[j]
    return F


def grouped(rng, n):
    k = rng.randint(1, n)
    g = [rng.randrange(k) for _ in range(n)]
    ks = sorted(set(g))
    return numpy.array([[1. if x == y else 0. for x in g] for y in ks])


def trace(rng, k):
    c = config(rng)
    M = Model(c)
    steps = []
    T = {"name": "bellman-%d" % k, "cfg": c, "steps": steps}
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["collapse", "random", "randomdet", "values", "qvalues", "greedy", "greedyq", "pi", "optimal", "lstd"])
        if op == "pi":
            vals = [0, 0, 4] if rng.random() < .3 else [-8, -4, -1, 0, 1, 4, 8]
            base_ = [[rng.choice(vals) for _ in range(c["n"])] for _ in range(2)]
            mx = rng.randint(0, 5)
            default = rng.random() < .2
            if default:
                mx = 20
            iterate(M, steps, policy(rng, c) if rng.random() < .6 else None, mx, [rng.choice(base_) for _ in range(40)], default)
            continue
        s = base(op)

        def f():
            if op == "collapse":
                P = policy(rng, c)
                s["P"], s["T"] = fm(P), fm(pi.collapsedTransitions(M.Ts, P))
            elif op == "random":
                P, X = pi.randomPolicy(M.Ts)
                s["P"], s["T"] = fm(P), fm(X)
            elif op == "randomdet":
                P, X = pi.randomDeterministic(M.Ts)
                s["P"], s["T"] = fm(P), fm(X)
            elif op == "values":
                P = policy(rng, c)
                X = pi.collapsedTransitions(M.Ts, P)
                s["P"], s["V"] = fm(P), FXL(pi.trueValues(X, M.R, M.g), U)
            elif op == "qvalues":
                P = policy(rng, c)
                s["P"] = fm(P)
                eye = numpy.eye(c["n"])
                Q = pi.trueQValues(M.Ts, M.R, M.g, P) if rng.random() < .6 else ls.LSTD_Qvalues(M.Ts, P, M.R, eye if rng.random() < .5 else unimodular(rng, c["n"]), M.g)
                s["Q"] = fm(Q)
            elif op == "greedy":
                v4 = [rng.choice([0, 0, 4, -4, 1, 7]) for _ in range(c["n"])]
                P, X = pi.greedyPolicy(M.Ts, M.R, M.g, numpy.array(v4) / 4.)
                s["v4"], s["P"], s["T"] = v4, fm(P), fm(X)
            elif op == "greedyq":
                q = [[rng.randint(-2, 2) for _ in range(c["m"])] for _ in range(c["n"])]
                s["q"], s["P"] = q, fm(pi.greedyQPolicy(numpy.array(q, float)))
            elif op == "optimal":
                P0 = policy(rng, c) if rng.random() < .5 else None
                r = rng.random()
                F = numpy.eye(c["n"]) if r < .5 else unimodular(rng, c["n"])
                if r < .4:
                    P, X = pi.policyIteration(M.Ts, M.R, M.g, initpolicy=P0)
                elif r < .7:
                    P, X = ls.LSPI_policy(F, M.Ts, M.R, M.g, initpolicy=P0)
                else:
                    P, X = ls.LSTD_PI_policy(F, M.Ts, M.R, M.g, initpolicy=P0)
                s["P"], s["T"], s["V"] = fm(P), fm(X), FXL(pi.trueValues(X, M.R, M.g), U)
            elif op == "lstd":
                P = policy(rng, c)
                X = pi.collapsedTransitions(M.Ts, P)
                F = unimodular(rng, c["n"]) if rng.random() < .5 or M.g > .25 else grouped(rng, c["n"])
                V = ls.LSTD_values(X, M.R, F, M.g, **({"MAT_LIMIT": 0} if rng.random() < .5 else {}))
                s["P"], s["F"], s["V"] = fm(P), [[I(x) for x in r] for r in F], FXL(V, U)
            s["same"] = M.same()
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
    return T


def run(job):
    job.write("bellman", [trace(job.rng, k) for k in range(job.args["count"])])


def replay(job):
    out = []
    for k, b in enumerate(job.behaviours):
        M = Model(b["cfg"])
        steps = []
        n = len(b["ops"])
        vs = [list(v) for v in b["ops"]]
        mx = job.rng.randint(1, n)
        iterate(M, steps, None, mx, vs + vs, False)
        out.append({"name": "iterate-%d" % k, "cfg": b["cfg"], "steps": steps})
    job.write("bellman_gen", out)


main({"random": run, "replay": replay})
