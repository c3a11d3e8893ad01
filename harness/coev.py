"""Driver for coevolution (spec Coev)."""
from common import *
from scipy import array
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.optimization.populationbased.coevolution import Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution


class World(object):
    def __init__(self, rng):
        self.rng, self.all, self.calls, self.script = rng, [], [], None
        self.table = {}

    def play(self, p, o):
        if self.script:
            r = self.script.pop(0)
        else:
            r = self.rng.choice([-2, -1, -1, 0, 1, 1, 2]) if self.style == "noise" else self.strength(p, o)
        self.calls.append([p.num, o.num, r])
        return r if self.rng.random() < .5 else float(r)

    def strength(self, p, o):
        # intransitive or by strength
        if self.style == "rock":
            return [0, 1, -1][(p.num - o.num) % 3]
        return (p.num * 7 % 11 > o.num * 7 % 11) - (p.num * 7 % 11 < o.num * 7 % 11)


class Ind(Evolvable):
    def __init__(self, w, params, origin=None):
        self.w, self.origin, self.mutations = w, origin, 0
        self.params = array(params, dtype=float)
        w.all.append(self)
        self.num = len(w.all)

    def copy(self):
        return Ind(self.w, self.params, self)

    def mutate(self):
        self.mutations += 1
        self.params = self.params + array([float(self.w.rng.randint(-4, 4)) for _ in self.params])

    def randomize(self):
        self.params = array([float(self.w.rng.randint(-9, 9)) for _ in self.params])

    def _setParameters(self, x):
        self.params = array(x, dtype=float)


def build(rng, kind, w, c, seeds, **kw):
    cl = {"single": Coevolution, "competitive": CompetitiveCoevolution, "multi": MultiPopulationCoevolution}[kind]
    a = {"populationSize": c["n"], "selectionProportion": c["_sel"], "elitism": c["elitism"], "parentChildAverage": c["_avg"]}
    if c["_ts"] is not None:
        a["tournamentSize"] = c["_ts"]
    if c["_hof"]:
        a["hallOfFameEvaluation"] = c["_hof"]
    if c["shared"]:
        a["useSharedSampling"] = True
    if c["_abs"]:
        a["absEvalProportion"] = c["_abs"]
        a["absEvaluator"] = lambda x: absfit(x)
    if kind == "multi":
        a["numPops"] = c["pops"]
    a.update(kw)
    return cl(w.play, seeds, **a)


def absfit(x):
    return int(x.num * 5 % 7) - 3


def pops(x, kind):
    if kind == "single":
        ps = [x.pop]
    elif kind == "competitive":
        ps = [x.pop, x.parasitePop]
    else:
        k = [j for j, p in enumerate(x.pops) if p is x.pop][0]
        ps = x.pops[k:] + x.pops[:k]
    return [[i.num for i in p] for p in ps]


def config(rng):
    kind = rng.choice(["single", "single", "competitive", "competitive", "multi"])
    style = rng.choice(["", "", "", "champions", "sharing"]) if kind != "multi" else ""
    n = rng.randint(2, 6) if kind != "multi" else rng.randint(2, 4)
    if style:
        n = rng.randint(4, 7)
    c = {"kind": kind, "n": n, "elitism": bool(style) or rng.random() < .5, "pops": rng.randint(2, 4) if kind == "multi" else 1, "depth": 0, "back": 0}
    c["_style"] = style
    c["_sel"] = rng.choice([p for p in (.25, .5, .5, .75) if int(n * p) >= 1])
    if style == "sharing":
        c["_sel"] = .75
    c["sel"] = int(n * c["_sel"])
    c["shared"] = kind != "multi" and n >= 3 and (rng.random() < .35 and style != "champions" or style == "sharing")
    c["_ts"] = rng.choice([None, None, rng.randint(1, n)])
    c["ts"] = n if c["_ts"] is None else c["_ts"]
    c["_hof"] = rng.choice([.25, .5]) if kind != "multi" and not c["shared"] and (style or rng.random() < .4) else 0
    c["hof"] = int(c["ts"] * c["_hof"])
    c["_avg"] = rng.choice([1., 1., .5, .75])
    c["avg"] = FX(c["_avg"])
    c["_abs"] = rng.choice([.25, .5]) if kind != "competitive" and rng.random() < .3 else 0
    c["abs"] = FX(c["_abs"])
    return c


def seeds_(rng, w, c):
    lo = {"single": 1, "competitive": 1, "multi": 1}[c["kind"]]
    m = rng.randint(lo, c["n"]) if c["kind"] != "competitive" else rng.randint(1, 2 * c["n"] - 1)
    return [Ind(w, [rng.randint(-5, 5), rng.randint(-5, 5)]) for _ in range(m)]


def root(i, ids):
    while i is not None and i.num not in ids:
        i = i.origin
    return i


def run_one(rng, k, script=None):
    w = World(rng)
    w.style = rng.choice(["noise", "noise", "rock", "strength"])
    w.script = list(script) if script else None
    c = config(rng)
    if c["_style"] == "champions":
        w.style = "strength"
    if c["_style"] == "sharing":
        w.style = "noise"
    sd = seeds_(rng, w, c)
    given = list(sd)
    cfg = {a: b for a, b in c.items() if a[0] != "_"}
    cfg["start"] = []
    steps = []
    T = {"name": "coev-%s-%d" % (c["kind"], k), "cfg": cfg, "steps": steps}
    box = {}

    def start():
        x = box["x"] = build(rng, c["kind"], w, c, sd)
        cfg["start"] = pops(x, c["kind"])
        ids = {i.num for i in given}
        by = {i.num: i for i in w.all}
        return {"sizes": len(cfg["start"]) == (2 if c["kind"] == "competitive" else c["pops"]) and all(len(p) == c["n"] for p in cfg["start"]),
                "roots": all(root(by[i], ids) is not None for p in cfg["start"] for i in p) and ids <= {i for p in cfg["start"] for i in p},
                "seeds": sd == given}
    b = {"op": "start", "sizes": False, "roots": False, "seeds": False}
    b["err"], r = guarded(start)
    b.update(r or {})
    steps.append(b)
    if b["err"]:
        return T
    x = box["x"]
    for g in range(rng.randint(5, 8) if c["_style"] else rng.randint(1, 6)):
        b = {"op": "gen", "calls": [], "steps": 0, "gen": 0, "best": 0, "fits": [], "hofsize": 0, "ret": 0, "next": [], "results": [], "absfit": [], "pops": []}
        before = pops(x, c["kind"])[0]

        def f():
            del w.calls[:]
            x.maxGenerations = g + 1
            b["absfit"] = [[i, absfit(w.all[i - 1])] for i in before]
            b["ret"] = x.learn().num
            b["calls"] = [list(q) for q in w.calls]
            b["steps"], b["gen"] = I(x.steps), I(x.generation)
            b["best"], b["hofsize"] = x.hallOfFame[-1].num, len(x.hallOfFame)
            b["fits"] = FXL(x.hallOfFitnesses[-1])
            if [i.num for i in x.oldPops[g]] != before or len(x.oldPops) != g + 1:
                raise Malformed("old populations")
            for (p, o), v in x.allResults.items():
                b["results"].append({"p": p.num, "o": o.num, "won": I(v[0]), "games": I(v[1]), "sum": I(v[2]), "list": IL(v[3])})
            ps = b["pops"] = pops(x, c["kind"])
            new = ps[-1] if c["kind"] != "single" else ps[0]
            ids = set(before)
            for num in new:
                i = w.all[num - 1]
                chain = [i]
                while chain[-1] is not None and chain[-1].num not in ids:
                    chain.append(chain[-1].origin)
                if chain[-1] is None:
                    raise Malformed("a child of nobody")
                rt, mid = chain[-1], chain[-2] if len(chain) > 1 else chain[-1]
                if num in ids:
                    pr = start_params.get(num)
                    b["next"].append({"id": num, "rootid": num, "params": FXL(i.params), "mid": [], "root": FXL(pr), "mutations": 0})
                else:
                    b["next"].append({"id": num, "rootid": rt.num, "params": FXL(i.params), "mid": FXL(mid.params), "root": FXL(rt.params), "mutations": sum(z.mutations for z in chain[:-1])})
        start_params = {i: w.all[i - 1].params.copy() for i in before}
        b["err"], _ = guarded(f)
        steps.append(b)
        if b["err"]:
            break
    return T


def run_limits(rng, k):
    w = World(rng)
    w.style = "noise"
    c = config(rng)
    per = (2 * c["n"] * min(c["ts"], max(1, c["n"] // 2)) * (c["pops"] - 1)) if c["kind"] == "multi" else 2 * c["n"] * c["ts"]
    cfg = {a: b for a, b in c.items() if a[0] != "_"}
    cfg["start"] = []
    steps = []
    T = {"name": "limits-%s-%d" % (c["kind"], k), "cfg": cfg, "steps": steps}
    sd = seeds_(rng, w, c)
    maxe = rng.choice([0, per * rng.randint(1, 4) + rng.choice([0, 0, 1, per - 1])])
    maxg = rng.choice([0, 0, rng.randint(1, 5)])
    kw = {}
    if maxe:
        kw["maxEvaluations"] = maxe
    if maxg:
        kw["maxGenerations"] = maxg
    err, x = guarded(lambda: build(rng, c["kind"], w, c, sd, **kw))
    for z in range(rng.randint(1, 3)):
        ms = per * rng.randint(1, 3) + rng.choice([0, 0, 1, per - 1]) if rng.random() < .5 or not (maxe or maxg) else 0
        b = {"op": "run", "err": err, "maxsteps": ms, "maxevals": maxe, "maxgens": maxg, "steps": 0, "gen": 0, "calls": 0}

        def f():
            x.learn(ms) if ms else x.learn()
            b["steps"], b["gen"], b["calls"] = I(x.steps), I(x.generation), len(w.calls)
        if not err:
            b["err"], _ = guarded(f)
        steps.append(b)
        if b["err"]:
            break
    return T


def run(job):
    rng = job.rng
    job.write("coev", [run_limits(rng, k) if k % 5 == 0 else run_one(rng, k) for k in range(job.args["count"])])


def replay(job):
    """Outcome sequences of the specification, in the order of the evaluations."""
    rng = job.rng
    job.write("coev_gen", [run_one(rng, k, [op[2] for op in beh["ops"]]) for k, beh in enumerate(job.behaviours)])


main({"random": run, "replay": replay})
