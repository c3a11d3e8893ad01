"""Driver for multi-objective selection (spec Pareto)."""
from common import *
from scipy import array
from pybrain.tools import nondominated as nd
from pybrain.optimization.populationbased.multiobjective import nsga2, constnsga2
from pybrain.optimization import MultiObjectiveGA
from pybrain.rl.environments.functions.function import FunctionEnvironment

CFG = {"depth": 0, "grid": 0, "eq": True}


def tables(rng, big):
    dim = rng.choice([1, 2, 2, 2, 3, 3, 4])
    n = rng.choice([101, 140, 205]) if big else rng.randint(1, 9) if rng.random() < .8 else rng.randint(18, 50)
    g = rng.choice([1, 2, 3, 6, 50, 1000])
    style = rng.random()
    f = []
    if dim > 1 and n > 9 and rng.random() < .5:   # consecutive trade-off fronts, each dominated by the one before or after
        m = rng.choice([2, 2, 2, 3, 4])
        up = rng.choice([1, -1])
        for k in range(n):
            b = k * m // n
            f.append([k % n, n - k] + [0] * (dim - 2) if b == 0 else [f[k % (n // m)][j] + up * b for j in range(dim)])
        return f
    for _ in range(n):
        if style < .3 and dim > 1:   # a trade-off front, with a few others
            x = rng.randint(0, g)
            v = [x, g - x] + [rng.randint(0, g) for _ in range(dim - 2)]
            if rng.random() < .2:
                v[rng.randrange(dim)] += 1
        elif style < .45:
            x = rng.randint(0, g)
            v = [x + rng.randint(0, 1) for _ in range(dim)]
        else:
            v = [rng.randint(0, g) for _ in range(dim)]
        f.append(v)
    return f


def fitness(rng, f):
    kind = rng.choice(["array", "tuple", "list", "float"])
    mk = {"array": lambda v: array(v, dtype=float), "tuple": tuple, "list": list, "float": lambda v: tuple(float(a) for a in v)}[kind]
    return [mk(v) for v in f]


def table_step(rng, op, const, f, names, inv, fit, b):
    eq = b["eq"]
    if const:
        table = {names[k]: (fit[k], bool(b["feas"][k]), array(b["parts"][k], dtype=float)) for k in range(len(f))}
    else:
        table = {names[k]: fit[k] for k in range(len(f))}
    key = lambda x: table[x]
    items = list(names)
    rng.shuffle(items)
    its = rng.choice([list, set, tuple, iter])(items)
    kw = {} if eq and rng.random() < .5 else {"allowequality": eq}
    if op == "front":
        if const:
            fn = nd.const_non_dominated_front
        else:
            fn = rng.choice([nd.non_dominated_front, nd.non_dominated_front, nd._non_dominated_front_fast, nd._non_dominated_front_merge, nd._non_dominated_front_arr, nd._non_dominated_front_old] if len(items) < 20 or rng.random() < .5 else [nd._non_dominated_front_merge])
        b["res"] = sorted(inv[x] for x in fn(its, key, **kw))
    elif op == "sort":
        b["fs"] = [sorted(inv[x] for x in s) for s in (nd.const_non_dominated_sort if const else nd.non_dominated_sort)(its, key, **kw)]
    elif op == "crowd":
        d = (nd.const_crowding_distance if const else nd.crowding_distance)(items, table)
        b["res"] = [FX(d[x]) for x in names]
    elif op == "select":
        sel = constnsga2.nsga2select if const else nsga2.nsga2select
        b["res"] = sorted(inv[x] for x in (sel(items, table, b["n"], eq) if kw else sel(items, table, b["n"])))
    else:
        b["n"] = I(nd.const_number_of_feasible_pop(items, key))
    if not const and any(list(map(float, table[x])) != list(map(float, f[inv[x] - 1])) for x in names):
        raise Malformed("fitness table changed")


def table(rng, k, big=False):
    f = tables(rng, big)
    n = len(f)
    eq, const = rng.random() < .5, rng.random() < .35
    op = rng.choice(["front", "front", "sort"]) if big else rng.choice(["front", "front", "sort", "crowd", "select", "select", "count"] if const else ["front", "front", "sort", "crowd", "select", "select"])
    names = rng.choice([lambda: list(range(100, 100 + n)), lambda: [(float(z), 1.5) for z in range(n)], lambda: ["i%d" % z for z in range(n)]])()
    rate = rng.choice([0, .3, .7, 1])
    b = {"op": op, "err": "", "f": f, "eq": eq, "const": const, "feas": [], "viol": [], "n": 0, "res": [], "fs": []}
    if const:
        b["feas"] = [rng.random() < rate for _ in f]
        # infeasible items have violations of one sign
        b["parts"] = [[0, 0] if z else [-rng.randint(0, 3), -rng.randint(1, 3)] for z in b["feas"]]
        b["viol"] = [sum(p) for p in b["parts"]]
    if op == "select":
        b["n"] = rng.randint(0, n + 1)
    inv = {x: z + 1 for z, x in enumerate(names)}
    b["err"], _ = guarded(lambda: table_step(rng, op, const, f, names, inv, fitness(rng, f), b))
    b.pop("parts", None)
    return {"name": "table-%s%s-%d" % ("const-" if const else "", op, k), "cfg": CFG, "steps": [b]}


def generations(rng, k, const=False):
    dim, m = rng.choice([1, 2, 3, 4]), rng.choice([2, 2, 3])
    c = {"depth": 0, "grid": 0, "eq": rng.random() < .6, "elitism": rng.random() < .6, "size": rng.randint(4, 10), "elite": 0, "sel": 0,
         "a": [[rng.choice([-2, -1, 1, 2, 3]) for _ in range(dim)] for _ in range(m)], "mod": [rng.choice([2, 3, 7, 1000]) for _ in range(m)], "off": [rng.randint(0, 3) for _ in range(m)],
         "sign": [rng.choice([1, -1]) for _ in range(m)]}
    sel, eliteprop = rng.choice([.5, .5, .75, 1.]), rng.choice([.5, 1., 1., .2])
    c["sel"] = int(c["size"] * sel)
    c["elite"] = int(c["size"] * eliteprop) if c["elitism"] else 0
    steps = []
    T = {"name": "nsga2-%d" % k, "cfg": c, "steps": steps}
    seen = []

    def fun(x):
        x = [I(v) for v in x]
        seen.append(x)
        return array([c["sign"][i] * ((sum(a * v for a, v in zip(c["a"][i], x)) % c["mod"][i]) - c["off"][i]) for i in range(m)])
    mod = max(c["mod"])
    pop = [array([float(rng.randint(0, 4 if rng.random() < .7 else mod)) for _ in range(dim)]) for _ in range(c["size"])]
    if rng.random() < .3:
        pop[1] = pop[0].copy()
    box = {}

    def make():
        return MultiObjectiveGA(fun, array([0.] * dim), populationSize=c["size"], topProportion=sel, eliteProportion=eliteprop, elitism=c["elitism"], allowEquality=c["eq"],
                                mutationProb=0, initialPopulation=pop, storeAllPopulations=True)
    err, ga = guarded(make)
    if err:
        steps.append({"op": "gen", "err": err})
        return T
    for g in range(rng.randint(1, 5)):
        b = {"op": "gen", "err": "", "pop": [], "distinct": [], "best": [], "bestf": [], "fresh": [], "next": [], "ne": 0}

        def f():
            b["pop"] = [IL(x) for x in ga.currentpop]
            del seen[:]
            box["r"] = ga.learn(1)
            if ga.numLearningSteps != g + 1:
                raise Malformed("no learning step")
            b["distinct"] = [list(t) for t in sorted(set(map(tuple, b["pop"])))]
            b["best"], b["bestf"] = [IL(x) for x in box["r"][0]], [IL(x) for x in box["r"][1]]
            b["fresh"] = [list(x) for x in seen]
            b["next"] = [IL(x) for x in ga.currentpop]
            # the elite comes first; with duplicates there are fewer parents than asked for
            b["ne"] = min(c["elite"], c["sel"], len(b["distinct"]))
            got = [(IL(x), IL(y)) for x, y in [(x, ga._allGenerations[-1][1][tuple(x)]) for x in ga._allGenerations[-1][0]]]
            if [x for x, y in got] != b["pop"] or len(ga._allGenerations) != g + 1:
                raise Malformed("stored populations")
            for x, y in got:
                if y != IL(fun(x)):
                    raise Malformed("fitness of an individual")
        b["err"], _ = guarded(f)
        steps.append(b)
        if b["err"]:
            break
    return T


def run(job):
    rng, out = job.rng, []
    for k in range(job.args["count"]):
        out.append(generations(rng, k) if rng.random() < .2 else table(rng, k))
    for k in range(job.args["big"]):
        out.append(table(rng, job.args["count"] + k, True))
    job.write("pareto", out)


def replay(job):
    """The front of a growing set, from behaviours of the specification."""
    out = []
    for k, beh in enumerate(job.behaviours):
        f = []
        for v in beh["ops"]:
            if list(v) not in f:
                f.append(list(v))
        for n in (len(f), max(1, len(f) // 2)):
            b = {"op": "front", "err": "", "f": f[:n], "eq": beh["cfg"]["eq"], "const": False, "feas": [], "viol": [], "n": 0, "res": [], "fs": []}
            items = list(map(tuple, f[:n]))
            inv = {x: z + 1 for z, x in enumerate(items)}
            b["err"], _ = guarded(lambda: b.update(res=sorted(inv[x] for x in nd.non_dominated_front(items, allowequality=b["eq"]))))
            b2 = dict(b, op="sort")
            b2["err"], _ = guarded(lambda: b2.update(fs=[sorted(inv[x] for x in s) for s in nd.non_dominated_sort(items, allowequality=b["eq"])]))
            out.append({"name": "growing-%d" % k, "cfg": CFG, "steps": [b, b2]})
    job.write("pareto_gen", out)


main({"random": run, "replay": replay})
