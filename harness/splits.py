"""Driver for splits, batches and class conversions (spec Splits)."""
from common import *
import io
from pybrain.datasets import (SupervisedDataSet, ImportanceDataSet, SequentialDataSet, ClassificationDataSet, SequenceClassificationDataSet)
CL = dict((c.__name__, c) for c in (SupervisedDataSet, ImportanceDataSet, SequentialDataSet, ClassificationDataSet, SequenceClassificationDataSet))
CLASSY = ("ClassificationDataSet", "SequenceClassificationDataSet")
SEQ = ("SequentialDataSet", "ImportanceDataSet", "SequenceClassificationDataSet")


def R(m):
    return [IL(r) for r in m]


def make(cfg):
    c = CL[cfg["kind"]]
    return c(cfg["di"], cfg["dt"], nb_classes=cfg["ncl"]) if cfg["kind"] in CLASSY else c(cfg["di"], cfg["dt"])


def observe(d, cfg):
    o = {"inp": R(d["input"]), "tgt": R(d["target"]), "imp": [], "cls": [], "ncl": 0, "starts": []}
    if cfg["kind"] == "ImportanceDataSet":
        o["imp"] = R(d["importance"])
    if cfg["kind"] in CLASSY:
        o["cls"] = R(d["class"])
        o["ncl"] = I(d.nClasses)
    if cfg["kind"] in SEQ:
        st, a = [], 0
        for i in range(d.getNumSequences()):
            st.append(a)
            a += I(d.getSequenceLength(i))
        o["starts"] = st
    return o


def zipped(d, kind):
    imp = R(d["importance"]) if kind == "ImportanceDataSet" else [[]] * len(d)
    z = [[a, b, c] for a, b, c in zip(R(d["input"]), R(d["target"]), imp)]
    if len(d["target"]) != len(z) or len(imp) != len(z):
        raise Malformed("fields out of step")
    if kind not in SEQ:
        return z
    out, a = [], 0
    for i in range(d.getNumSequences()):
        n = d.getSequenceLength(i)
        out.append(z[a:a + n])
        a += n
    return out


def apply(d, op, cfg):
    k, kind = op["op"], cfg["kind"]
    if k == "add":
        if kind == "ImportanceDataSet":
            d.addSample(op["i"], op["t"], numpy.array(op["w"], float))
        else:
            d.addSample(op["i"], op["t"])
    elif k == "newseq":
        guarded(d.newSequence)
    elif k == "stats":
        h = d.calculateStatistics()
        return {"hist": [I(h[c]) for c in sorted(h)]}
    elif k == "many":
        if (op["lo"], op["hi"]) == (0, 1):
            d._convertToOneOfMany()
        else:
            d._convertToOneOfMany(bounds=(op["lo"], op["hi"]))
    elif k == "nb":
        d._convertToClassNb()
    elif k == "clear":
        d.clear()
    elif k == "split":
        l, r = d.splitWithProportion(op["p"] / 16.0)
        return {"l": zipped(l, kind), "r": zipped(r, kind)}
    elif k == "byclass":
        l, r = d.splitByClass(op["c"])
        f = lambda x: {"inp": R(x["input"]), "tgt": R(x["target"]), "cls": R(x["class"]), "kind": type(x).__name__, "n": I(len(x))}
        return {"l": f(l), "r": f(r)}
    elif k == "strat":
        parts = d.stratifiedSplit(op["tf"] / 16.0, op["vf"] / 16.0)

        def f(x):
            out = []
            if not len(x):
                return out
            cl = x.getSequenceClass()
            for i in range(x.getNumSequences()):
                q = x.getSequence(i)
                t = set(I(v) for v in q[1].flatten())
                out.append([R(q[0]), t.pop() if len(t) == 1 else -1])
                if I(cl[i]) != out[-1][1]:
                    out[-1][1] = -2
            return out
        return {"trn": f(parts[0]), "tst": f(parts[1]), "val": f(parts[2]) if len(parts) > 2 else []}
    elif k == "batches":
        perm = op["perm"] or None
        return {"b": [R(b) for b in d.batches(op["l"], op["n"], perm)]}
    elif k == "rbatches":
        return {"b": [R(b) for b in d.randomBatches(op["l"], op["n"])]}
    elif k == "cast":
        x = d.castToRegression(numpy.array(op["values"], float))
        return {"inp": R(x["input"]), "tgt": R(x["target"])}
    elif k == "seqclass":
        n = d.getNumSequences()
        return {"all": IL(d.getSequenceClass()), "each": [I(d.getSequenceClass(i)) for i in range(n)]}
    elif k == "plus":
        o = make(dict(cfg, ncl=d.nClasses))
        for a, b in zip(op["inp"], op["tgt"]):
            o.addSample(a, b)
        x = d + o
        return {"inp": R(x["input"]), "tgt": R(x["target"]), "cls": R(x["class"])}
    elif k == "libsvm":
        txt = "".join("%d %s\n" % (r["c"], " ".join("%d:%d" % (a, b) for a, b in r["f"])) for r in op["rows"])
        x = ClassificationDataSet.load_libsvm(io.StringIO(txt))
        return {"inp": R(x["input"]), "tgt": R(x["target"])}
    return {"none": 0}


def run(cfg, ops, name):
    d = make(cfg)
    steps = []
    for op in (ops(d) if callable(ops) else ops):
        op = dict(op)
        err, ret = guarded(lambda: apply(d, op, cfg), {"none": 0})
        obs = {"none": 0}
        if not err:
            err, obs = guarded(lambda: observe(d, cfg), {"none": 0})
        op.update(err=err, ret=ret, obs=obs)
        steps.append(op)
        if err:
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def dump(job, nm, tr, n=400):
    for i in range(0, len(tr), n):
        job.write("%s%d" % (nm, i), tr[i:i + n])


def replay(job):
    dump(job, "replay", [run(b["cfg"], b["ops"], "tlc-%d" % k) for k, b in enumerate(job.behaviours)])


def rnd(job):
    rng = job.rng
    tr = []
    for t in range(job.args["count"]):
        kind = rng.choice(sorted(CL) + ["ClassificationDataSet", "SequenceClassificationDataSet"])
        classy, seq = kind in CLASSY, kind in SEQ
        K = rng.randint(2, 5)
        cfg = {"kind": kind, "di": rng.randint(1, 3), "dt": 1 if classy else rng.randint(1, 2), "ncl": rng.choice([0, K]) if classy else 0}
        given = cfg["ncl"] > 0
        val = lambda: rng.randint(-9, 99)
        dup = rng.random() < 0.3

        def ops(d):
            labs, many, known = [], False, False
            for _ in range(rng.randint(8, 30)):
                n = len(d)
                if not many:
                    for _ in range(rng.choice([0, 0, 1, 2, 5])):
                        lab = (len(labs) % K if len(labs) < K else rng.randrange(K)) if classy else 0
                        labs.append(lab)
                        known = False
                        yield {"op": "add", "i": [val() % 3 if dup else val() for _ in range(cfg["di"])],
                               "t": [lab] if classy else [val() % 3 if dup else val() for _ in range(cfg["dt"])],
                               "w": [rng.randint(0, 5) for _ in range(cfg["dt"])]}
                        if seq and rng.random() < 0.4:
                            yield {"op": "newseq"}
                n = len(d)
                c = ["split", "split"]
                if n:
                    c += ["batches", "batches", "rbatches"]
                full = classy and n and (given or len(set(labs)) == K)
                if full:
                    c += ["stats", "many", "many"] if not many else ["nb", "nb", "stats"]
                    if True:
                        c += ["byclass", "byclass", "cast"]
                        if seq and not many and d.getSequenceLength(d.getNumSequences() - 1) > 0:
                            c += ["strat"] * 3 + ["seqclass"] * known
                    if not many and kind == "ClassificationDataSet":
                        c += ["plus"]
                if not many and rng.random() < 0.1:
                    c += ["clear"] * 3
                if kind == "ClassificationDataSet":
                    c += ["libsvm"]
                k = rng.choice(c)
                if k == "split":
                    yield {"op": k, "p": rng.randint(0, 16)}
                elif k in ("batches", "rbatches"):
                    m = rng.choice([1, 2, 3, 4, n, n + 1, max(1, n - 1)])
                    l = rng.choice(["input", "target"] + (["importance"] if kind == "ImportanceDataSet" else []))
                    o = {"op": k, "l": l, "n": m}
                    if k == "batches":
                        p = list(range((n + m - 1) // m))
                        rng.shuffle(p)
                        o["perm"] = rng.choice([[], p])
                    yield o
                elif k == "stats":
                    known = True
                    yield {"op": k}
                elif k == "many":
                    many = known = True
                    lo, hi = rng.choice([(0, 1), (0, 1), (-1, 1), (0, 7), (2, -3)])
                    yield {"op": k, "lo": lo, "hi": hi}
                elif k == "nb":
                    many = False
                    yield {"op": k}
                elif k == "clear":
                    labs = []
                    yield {"op": k}
                    if not given:
                        return
                elif k == "byclass":
                    known = True
                    yield {"op": k, "c": rng.randrange(K)}
                elif k == "cast":
                    known = True
                    yield {"op": k, "values": [val() for _ in range(K)]}
                elif k == "strat":
                    known = True
                    tf = rng.choice([0, 2, 4, 8, 16, rng.randint(0, 16)])
                    yield {"op": k, "tf": tf, "vf": rng.randint(0, 16 - tf)}
                elif k == "seqclass":
                    yield {"op": k}
                elif k == "plus":
                    m = rng.randint(1, 4)
                    yield {"op": k, "inp": [[val() for _ in range(cfg["di"])] for _ in range(m)], "tgt": [[rng.randrange(K)] for _ in range(m)]}
                elif k == "libsvm":
                    nf = rng.randint(1, 5)
                    rows = [{"c": rng.randrange(4), "f": [[j, rng.randint(1, 9)] for j in range(1, nf + 1) if rng.random() < 0.6] or [[1, 4]]} for _ in range(rng.randint(1, 6))]
                    yield {"op": k, "rows": rows, "nf": max(f[0] for r in rows for f in r["f"])}
        tr.append(run(cfg, ops, "random-%d" % t))
    dump(job, "rnd", tr, 200)


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
