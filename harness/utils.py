"""Driver for the utility library (spec Utils)."""
from common import *
import numpy as np
from scipy import array, zeros
from pybrain import utilities as U
from pybrain.tools import fisher, functions

CFG = {"n": 0, "edges": 0}


def trace(name, steps, cfg=None):
    return {"name": name, "cfg": cfg or CFG, "steps": steps}


def step(op, b, f):
    b["op"] = op
    b["err"], _ = guarded(lambda: b.update(f()))
    return b


def graph(rng, n, dens):
    if rng.random() < .2:   # a chain
        return [[i + 2] if i + 1 < n else [] for i in range(n)]
    return [[j + 1 for j in range(n) if rng.random() < dens] for _ in range(n)]


def names(rng, n):
    """Node objects that are not just consecutive numbers."""
    k = rng.randrange(4)
    return [None] + [[i, "n%d" % i, (i, -i), (i % 7, i)][k] for i in range(1, n + 1)]


def reach(rng, adj, start, dests, nm=None):
    nm = nm or names(rng, len(adj))
    inv = {x: i for i, x in enumerate(nm)}
    mk, mk2 = rng.choice([list, list, list, set]), rng.choice([list, list, tuple, set])
    b = {"adj": adj, "start": sorted(start), "dests": sorted(dests), "startafter": [], "destsafter": [], "res": []}

    def f():
        st, ds = [nm[i] for i in start], [nm[i] for i in dests]
        rng.shuffle(st)
        st, ds = mk(st), mk2(ds)
        ret = rng.choice([list, tuple, set])
        r = U.reachable(lambda x: ret([nm[j] for j in adj[inv[x] - 1]]), st, ds)
        return {"res": [[inv[k], I(v)] for k, v in r.items()], "startafter": sorted(inv[x] for x in st), "destsafter": sorted(inv[x] for x in ds)}
    return step("reach", b, f)


def flood(rng, adj, init, full=None, rel=None):
    nm = names(rng, len(adj))
    inv = {x: i for i, x in enumerate(nm)}
    b = {"adj": adj, "init": init, "hasfull": full is not None, "full": full or [], "hasrel": rel is not None, "relevant": rel or [], "res": []}

    def f():
        mk = rng.choice([list, tuple, set])
        kw = {} if rel is None else {"relevant": mk([nm[i] for i in rel])}
        r = U.flood(lambda x: mk([nm[j] for j in adj[inv[x] - 1]]), None if full is None else mk([nm[i] for i in full]), mk([nm[i] for i in init]), **kw)
        if not isinstance(r, list):
            raise Malformed("not a list")
        return {"res": [inv[x] for x in r]}
    return step("flood", b, f)


def graphs(rng):
    n = rng.randint(1, 14)
    adj = graph(rng, n, rng.choice([.05, .1, .2, .4]))
    N = range(1, n + 1)
    pick = lambda lo: rng.sample(list(N), rng.randint(min(lo, n), n if rng.random() < .3 else min(n, 4)))
    if rng.random() < .6:
        return reach(rng, adj, pick(0 if rng.random() < .1 else 1), pick(0 if rng.random() < .1 else 1))
    full = pick(1) if rng.random() < .3 else list(N) if rng.random() < .5 else None
    rel = pick(1) if rng.random() < .5 else None
    if rel and full is not None and rng.random() < .8:
        rel = [i for i in rel if i in full] or None
    if rng.random() < .05:
        rel = []
    return flood(rng, adj, pick(1), full, rel)


def memo(rng):
    box = {"calls": 0, "ret": 0}
    counter = [0]

    def fun(*a, **k):
        box["calls"] += 1
        counter[0] += 1
        box["ret"] = sum(a) * 7 + sum(v * (len(n) + 1) for n, v in k.items()) * 3 + counter[0] * 1000
        return box["ret"]
    g = U.memoize(fun)
    h = U.memoize(lambda *a, **k: -1)   # another cache
    out = []
    for _ in range(rng.randint(3, 25)):
        a = [rng.randint(0, 2) for _ in range(rng.randint(0, 2))]
        kw = [(k, rng.randint(0, 1)) for k in rng.sample(["a", "bb", "ccc"], rng.choice([0, 0, 1, 2]))]
        b = {"args": a, "kw": sorted([len(k), v] for k, v in kw), "res": 0, "calls": 0, "ret": 0}

        def f():
            box["calls"] = box["ret"] = 0
            h(*a, **dict(kw))
            r = I(g(*a, **dict(kw)))
            return {"res": r, "calls": box["calls"], "ret": box["ret"]}
        out.append(step("memo", b, f))
        if b["err"]:
            break
    return out


def wrappers(rng):
    n = rng.choice([1, 2, 4, 8])
    rets, vals = [], []

    def fun(x, y=0):
        if (x, y) != (3, 4):
            raise Malformed("arguments")
        rets.append(rng.randint(-9, 9))
        return rets[-1]
    a = step("multi", {"n": n, "rets": [], "res": 0}, lambda: {"res": I(U.multiEvaluate(n)(fun)(3, y=4) * n), "rets": rets})

    class C(object):
        def __call__(self, x, y=0):
            vals.append(x * 10 + y)
            return vals[-1]

    def f():
        c = C()
        st = U.storeCallResults(c)
        res = [c(i, y=i % 3) for i in range(rng.randint(0, 6))]
        return {"res": IL(res), "rets": list(vals), "stored": IL(st)}
    b = step("store", {"res": [], "rets": [], "stored": []}, f)
    d = step("store", {"res": [], "rets": [5, 7, 5], "stored": [5, 7, 5]}, lambda: {"res": [U.garbagecollect(lambda x, y: x + y)(2, y=3), U.trace(lambda x, y: x + y)(3, y=4), U.garbagecollect(lambda: 5)()]})
    return [a, b, d]


def codes(rng):
    n = rng.randint(1, 14)
    i = rng.randrange(2 ** n)
    arr = [rng.randint(0, 1) for _ in range(rng.randint(1, 30))]
    m = rng.randint(1, 12)
    v = rng.randrange(m)
    dt = rng.choice([int, float, bool])
    return [step("gray", {"i": i, "n": n, "gray": 0, "back": 0, "un": 0}, lambda: {"gray": I(U.int2gray(i)), "back": I(U.gray2int(U.int2gray(i), n)), "un": I(U.gray2int(i, n))}),
            step("binary", {"i": i, "arr": arr, "res": [], "val": 0}, lambda: {"res": [int(ch) for ch in U.asBinary(i)], "val": I(U.binArr2int(array(arr).astype(dt)))}),
            step("onehot", {"i": v, "n": m, "res": [], "back": 0}, lambda: {"res": IL(U.one_to_n(v, m)), "back": I(U.n_to_one(U.one_to_n(v, m)))})]


def arrays(rng):
    n = rng.randint(1, 8)
    perm = rng.sample(range(n), n) if rng.random() < .8 else [rng.randrange(n) for _ in range(rng.randint(1, 10))]
    rows = rng.random() < .4
    arr = [[rng.randint(-50, 50) for _ in range(3)] if rows else [rng.randint(-50, 50)] for _ in range(n)]
    mk = rng.choice([list, array])

    def perm_():
        a = mk(arr) if rows else mk([x[0] for x in arr])
        r = U.permute(a, mk(perm))
        return {"res": [IL(x) if rows else [I(x)] for x in r]}
    out = [step("permute", {"arr": arr, "perm": perm, "res": []}, perm_)]
    dims = rng.choice([2, 2, 3])
    blk = [rng.randint(1, 3) for _ in range(dims)]
    shape = [k * rng.randint(1, 3 if dims == 3 else 4) for k in blk]
    flat = [rng.randint(-99, 99) for _ in range(int(np.prod(shape)))]
    out.append(step("blocks", {"arr": flat, "shape": shape, "blk": blk, "res": []}, lambda: {"res": IL(U.permuteToBlocks(array(flat).reshape(shape), tuple(blk)))}))
    d = rng.randint(1, 6)
    m = [[rng.randint(-9, 9) for _ in range(d)] for _ in range(d)]

    def tri():
        f = U.triu2flat(array(m))
        return {"flat": IL(f), "back": IM(U.flat2triu(f, d))}
    out.append(step("triu", {"m": m, "flat": [], "back": []}, tri))
    sq = [rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
    ms = [[[rng.randint(-9, 9) for _ in range(k)] for _ in range(k)] for k in sq]
    out.append(step("bdiag", {"ms": ms, "res": []}, lambda: {"res": IM(U.blockList2Matrix([array(x) for x in ms]))}))
    hs, vs = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))], [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    rws = [[[[rng.randint(-9, 9) for _ in range(h)] for _ in range(v)] for h in hs] for v in vs]

    def conv(x):
        if len(x) == 1 and rng.random() < .5:
            return float(x[0][0]) if len(x[0]) == 1 else array(x[0], dtype=float)
        return array(x, dtype=float)
    out.append(step("bcomb", {"rows": rws, "res": []}, lambda: {"res": IM(U.blockCombine([[conv(x) for x in row] for row in rws]))}))
    return out


def drawing(rng, N):
    v = [rng.randint(-3, 3) for _ in range(rng.randint(1, 6))]
    mk = rng.choice([list, array, tuple])
    out = [step("argmax", {"v": v, "all": [], "some": []}, lambda: {"all": IL(U.all_argmax(mk(v))), "some": [I(U.r_argmax(mk(v))) for _ in range(150)]})]
    w = [rng.choice([0, 0, 1, 2, 5, 20]) for _ in range(rng.randint(1, 6))]
    if not sum(w):
        w[rng.randrange(len(w))] = 3
    tol = rng.random() < .6
    probs = [x / float(sum(w)) for x in w]
    if tol and rng.random() < .7:
        probs = [float(x) for x in w] if rng.random() < .7 else list(w)
    elif not tol and rng.random() < .4:   # within the accepted rounding
        probs = [p * (1 - 9.5e-6) for p in probs]
    mk2 = rng.choice([list, array, tuple])

    def dr():
        p = mk2(probs)
        ref = list(p)
        c = [0] * len(w)
        for _ in range(N):
            c[I(U.drawIndex(p, True) if tol else U.drawIndex(p))] += 1
        return {"counts": c, "after": list(p) == ref}
    out.append(step("draw", {"w": w, "counts": [], "after": True}, dr))
    # the far end of the random numbers
    old = U.random

    def edge():
        p = mk2(probs)
        c = [0] * len(w)
        try:
            U.random = lambda: 1 - 2.0 ** -53
            for _ in range(25):
                c[I(U.drawIndex(p, tol))] += 1
            U.random = lambda: 0.0
            for _ in range(5):
                c[I(U.drawIndex(p, tol))] += 1
        finally:
            U.random = old
        # only the support counts here: give each possible index its own weight
        return {"counts": c, "w": [c[k] if w[k] and c[k] else (1 if w[k] else 0) for k in range(len(w))], "after": True}
    out.append(step("draw", {"w": w, "counts": [], "after": True}, edge))
    t = rng.choice([0, 1, 2, 4])
    g = [rng.randint(-4, 4) for _ in range(rng.randint(1, 5))]

    def gb():
        a = array(g, dtype=float)
        c = [0] * len(g)
        for _ in range(N):
            c[I(U.drawGibbs(a, temperature=float(t)) if t != 1 or rng.random() < .5 else U.drawGibbs(a))] += 1
        return {"counts": c, "after": IL(a) == g}
    out.append(step("gibbs", {"v": g, "t": t, "counts": [], "after": True}, gb))
    return out


def sets(rng):
    out = []
    t = [rng.randint(0 if rng.random() < .1 else 1, 4) for _ in range(rng.randint(1, 4))]
    out.append(step("iter", {"t": t, "res": []}, lambda: {"res": [IL(x) for x in U.iterCombinations(rng.choice([tuple, list])(t))]}))
    ss = [rng.sample(range(10), rng.randint(0 if rng.random() < .1 else 1, 4)) for _ in range(rng.randint(1, 4))]
    out.append(step("cross", {"sets": ss, "res": []}, lambda: {"res": [IL(x) for x in U.crossproduct([rng.choice([list, tuple])(s) for s in ss])]}))
    d = [rng.randint(0, 2) for _ in range(rng.randint(1, 5))]
    out.append(step("decr", {"t": d, "res": []}, lambda: {"res": [IL(x) for x in U.decrementAny(tuple(d))]}))
    # dictionaries
    keys = rng.sample(range(9), rng.randint(0, 4))
    vals = [[rng.randint(0, 5) for _ in range(rng.randint(1, 4))] for _ in keys]
    scal = [len(v) == 1 and rng.random() < .6 for v in vals]

    def dc():
        en = (lambda x: x) if rng.random() < .5 else (lambda x: "v%d" % x if x % 2 else x)
        de = lambda x: int(x[1:]) if isinstance(x, str) else I(x)
        dd = {k if rng.random() < .5 else "k%d" % k: (en(v[0]) if s else rng.choice([list, tuple])([en(x) for x in v])) for k, v, s in zip(keys, vals, scal)}
        ref = dict(dd)
        r = [[[int(str(k).strip("k")), de(x)] for k, x in e.items()] for e in U.dictCombinations(dd)]
        return {"res": r, "after": dd == ref}
    out.append(step("dictc", {"keys": keys, "vals": vals, "res": [], "after": True}, dc))
    dic = {rng.randrange(6): rng.randint(0, 3) for _ in range(rng.randint(0, 4))}
    sel = {rng.randrange(6): ([rng.randint(0, 3) for _ in range(rng.randint(0, 3))] if rng.random() < .5 else rng.randint(0, 3)) for _ in range(rng.randint(0, 3))}
    if rng.random() < .5:
        sel = {k: ([dic[k], 9] if rng.random() < .5 else dic[k]) if k in dic else v for k, v in sel.items()}
    req = rng.random() < .5
    out.append(step("match", {"d": [[k, v] for k, v in dic.items()], "sel": [{"key": k, "vals": v if isinstance(v, list) else [v]} for k, v in sel.items()], "req": req, "res": False},
                    lambda: {"res": bool(U.matchingDict(dic, sel, req) if req or rng.random() < .5 else U.matchingDict(dic, sel))}))
    ks, flip = rng.sample(range(6), rng.randint(0, 4)), rng.random() < .5
    out.append(step("subd", {"d": [[k, v] for k, v in dic.items()], "keys": ks, "flip": flip, "res": []},
                    lambda: {"res": [[k, I(v)] for k, v in (U.subDict(dic, ks, flip) if flip or rng.random() < .5 else U.subDict(dic, ks)).items()]}))
    vs = [[rng.randint(0, 1) for _ in range(3)] for _ in range(rng.randint(0, 8))]
    out.append(step("uniq", {"vs": vs, "res": []}, lambda: {"res": [IL(x) for x in U.uniqueArrays([array(v, dtype=float) for v in vs])]}))
    tup = [rng.randint(0, 9) for _ in range(rng.randint(1, 5))]
    i = rng.randrange(len(tup))
    out.append(step("tuprem", {"t": tup, "i": i, "res": []}, lambda: {"res": IL(U.tupleRemoveItem(tuple(tup), i))}))
    # values
    a = [rng.randint(-20, 20) for _ in range(rng.randint(2, 8))]
    if len(set(a)) > 1:
        lim = sorted(rng.sample(range(-9, 10), 2))
        out.append(step("scale", {"d": a, "lim": lim, "res": []}, lambda: {"res": FXL(U.linscale(array(a, dtype=rng.choice([int, float])), lim))}))
    o = [rng.randint(0, 2) for _ in range(rng.randint(1, 9))]
    tr = [x if rng.random() < .6 else rng.randint(0, 2) for x in o]
    mk = rng.choice([list, array, lambda q: array(q).reshape(-1, 1)])
    out.append(step("pct", {"out": o, "true": tr, "res": 0}, lambda: {"res": FX(U.percentError(mk(o), rng.choice([list, array])(tr)))}))
    ls = [[rng.randint(-3, 12) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]
    if rng.random() < .5:
        ls = [sorted(l, reverse=True) for l in ls]
    tg = sorted((rng.randint(-4, 12) for _ in range(rng.randint(1, 4))), reverse=True)
    batch, med = rng.choice([1, 1, 3]), rng.random() < .4

    def fo():
        r = U.avgFoundAfter(tg, ls, batch, med) if med or batch > 1 or rng.random() < .5 else U.avgFoundAfter(tg, ls)
        return {"res": [I(round(float(x) * (2 if med else len(ls)), 6)) for x in r]}
    out.append(step("found", {"targets": tg, "lists": ls, "batch": batch, "median": med, "res": []}, fo))
    return out


def numeric(rng):
    d = rng.randint(1, 4)
    A = np.array([[rng.uniform(-.4, .4) for _ in range(d)] for _ in range(d)])
    S = np.dot(A, A.T) + np.diag([rng.uniform(.7, 2) for _ in range(d)])
    F = np.linalg.cholesky(S).T
    given = rng.random() < .5
    FM = lambda m: [FXL(r) for r in np.asarray(m).reshape(len(np.atleast_2d(m)), -1)]

    def fi():
        kw = {"invSigma": np.linalg.inv(S), "factorSigma": F} if given else {}
        return {"fim": [FM(x) for x in fisher.calcFisherInformation(S, **kw)], "inv": [FM(x) for x in fisher.calcInvFisher(S, **kw)]}
    out = [step("fisher", {"sigma": FM(S), "factor": FM(F), "fim": [], "inv": []}, fi)]
    q = rng.randint(1, 6)
    if rng.random() < .5 and q > 1:
        out.append(step("orth", {"q": []}, lambda: {"q": FM(U.sparse_orth(q).toarray())}))
    else:
        out.append(step("orth", {"q": []}, lambda: {"q": FM(U.dense_orth(q))}))
    out.append(step("sqrtm", {"m": FM(S), "r": []}, lambda: {"r": FM(functions.sqrtm(S))}))

    def nm():
        class A(U.Named):
            pass

        class B(A):
            pass
        obs = [rng.choice([A, B])() for _ in range(rng.randint(1, 6))]
        for o in rng.sample(obs, rng.randint(0, len(obs))):
            o.name
        ns = [o.name for o in obs]
        again = [o.name for o in obs]
        for z, o in enumerate(obs):
            o.name = "x%d" % z
        return {"names": ns, "again": again, "set": [o.name for o in obs], "given": ["x%d" % z for z in range(len(obs))]}
    out.append(step("names", {"names": [], "again": [], "set": [], "given": []}, nm))
    return out


def run(job):
    rng, out = job.rng, []
    N = job.args["draws"]
    kinds = [lambda: [graphs(rng)], lambda: [graphs(rng)], lambda: memo(rng), lambda: wrappers(rng), lambda: codes(rng), lambda: arrays(rng), lambda: arrays(rng), lambda: drawing(rng, N),
             lambda: sets(rng), lambda: sets(rng), lambda: numeric(rng)]
    for k in range(job.args["count"]):
        out.append(trace("u-%d" % k, kinds[k % len(kinds)]()))
    job.write("utils", out)


def replay(job):
    """Graphs that grow edge by edge."""
    rng, out = job.rng, []
    for k, beh in enumerate(job.behaviours):
        n = beh["cfg"]["n"]
        adj = [[] for _ in range(n)]
        steps = []
        for a, b in beh["ops"]:
            adj[a - 1] = adj[a - 1] + [b]
            adj = list(adj)
            ds = [n] if len(steps) % 3 else [n, n - 1]
            steps.append(reach(rng, [list(x) for x in adj], [1, 2] if len(steps) % 2 else [1], ds))
            steps.append(flood(rng, [list(x) for x in adj], [1], list(range(1, n)) if len(steps) % 4 else None))
        # every trace is a sequence of independent calls; stop at the first error
        out.append(trace("growing-%d" % k, steps))
    job.write("utils_gen", out)


main({"random": run, "replay": replay})
