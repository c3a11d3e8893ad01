"""Driver for dataset histories (spec DataSet)."""
from common import *
import shutil, tempfile
from pybrain.datasets import (SupervisedDataSet, UnsupervisedDataSet, ImportanceDataSet, SequentialDataSet,
                              ReinforcementDataSet, ClassificationDataSet, SequenceClassificationDataSet)
from pybrain.datasets.dataset import DataSet

SEQ = ("SequentialDataSet", "ImportanceDataSet", "ReinforcementDataSet", "SequenceClassificationDataSet")
CLASSES = dict((c.__name__, c) for c in (DataSet, SupervisedDataSet, UnsupervisedDataSet, ImportanceDataSet, SequentialDataSet,
                                         ReinforcementDataSet, ClassificationDataSet, SequenceClassificationDataSet))


def make(cfg):
    c, d1, d2 = cfg["cls"], cfg["d1"], cfg["d2"]
    if c == "DataSet":
        d = DataSet()
        d.addField("a", d1)
        d.addField("b", d2)
        d.linkFields(["a", "b"])
        return d
    if c == "UnsupervisedDataSet":
        return UnsupervisedDataSet(d1)
    if cfg["rows0"]:
        return CLASSES[c](numpy.array([r[0] for r in cfg["rows0"]], float), numpy.array([r[1] for r in cfg["rows0"]], float))
    return CLASSES[c](d1, d2)


def rows(m):
    return [IL(r) for r in m]


def observe(d):
    names = [n for n in d.getFieldNames() if n != "sequence_index"]
    o = {"err": "", "cls": type(d).__name__, "f": dict((n, rows(d.getField(n))) for n in names), "link": list(d.link),
         "dims": dict((n, I(d.getDimension(n))) for n in names), "len": I(len(d)), "idx": I(d.index), "eod": bool(d.endOfData()),
         "vf": d.vectorformat, "fkind": "list" if all(isinstance(d.getField(n), list) for n in names) else "array"}
    assert all(d.hasField(n) for n in names)
    str(d)
    if o["cls"] in SEQ:
        n = d.getNumSequences()
        o["nseq"] = I(n)
        o["lens"] = [I(d.getSequenceLength(i)) for i in range(n)]
        o["seqs"] = [[rows(f) for f in d.getSequence(i)] for i in range(n)]
        for i in range(n):
            it = [[IL(x) for x in s] for s in d.getSequenceIterator(i)]
            if [list(z) for z in zip(*it)] != o["seqs"][i] and it:
                o["seqs"][i] = ["getSequenceIterator differs"]
        o["cur"] = I(d.getCurrentSequence())
        o["eos"] = [bool(d.endOfSequence(i)) for i in range(n)]
        o["sums"] = []
        if o["cls"] == "ReinforcementDataSet":
            r, s = d.getSumOverSequences("reward"), d.getSumOverSequences("state")
            o["sums"] = [[I(r[i, 0]), I(s[i, 0])] for i in range(n)]
            if r.shape != (n, 1) or s.shape != (n, d.getDimension("state")):
                o["sums"] = ["shape"]
        o["beyond"] = []
        for f in (d.getSequence, d.getSequenceLength, d.endOfSequence):
            try:
                f(n)
                o["beyond"].append(False)
            except IndexError:
                o["beyond"].append(True)
    return o


class World(object):
    def __init__(self, cfg, tmp):
        self.cfg, self.tmp = cfg, tmp
        self.objs = [make(cfg)]
        self.k = 0

    def apply(self, op):
        d = self.objs[op["o"] - 1]
        k = op["op"]
        self.k += 1
        if k == "add":
            c = self.cfg["cls"]
            if op.get("via") == "addSample":
                if c == "ImportanceDataSet" and op["rows"][-1] == [1] * len(op["rows"][-1]) and self.k % 2:
                    d.addSample(*op["rows"][:-1])
                else:
                    d.addSample(*op["rows"])
            elif op.get("via") == "array":
                d.appendLinked(*[numpy.array(r, float) for r in op["rows"]])
            else:
                d.appendLinked(*op["rows"])
        elif k == "append":
            d.append(op["l"], op["row"])
        elif k == "link":
            d.linkFields(list(op["ls"]))
        elif k == "unlink":
            d.unlinkFields(list(op["ls"])) if op["ls"] else d.unlinkFields()
        elif k == "field":
            d.addField(op["l"], op["dim"])
        elif k == "set":
            d.setField(op["l"], numpy.array(op["rows"], float))
        elif k == "setall":
            for l, r in zip(list(d.link), op["many"]):
                d.setField(l, numpy.array(r, float))
            d.reset()
        elif k == "poke":
            d[op["l"]][op["i"]] = op["row"]
        elif k == "convert":
            d.convertField(op["l"], {"int": int, "float": float}[op["t"]])
        elif k == "clear":
            if op["all"]:
                d.clear(True)
            else:
                d.clear()
        elif k == "reset":
            d.reset()
        elif k in ("get", "next"):
            if k == "get":
                r = d.getSample(op["i"]) if op.get("via") == "getSample" and hasattr(d, "getSample") else d.getLinked(op["i"])
            else:
                r = d.getLinked()
            kinds = set("list" if isinstance(x, list) else "%dd" % numpy.ndim(x) for x in r)
            op["kind"] = kinds.pop() if len(kinds) == 1 else "mixed"
            return [IL(x) for x in r]
        elif k == "iter":
            if type(d).__name__ in SEQ:
                return [[[IL(x) for x in s] for s in q] for q in d]
            return [[IL(x) for x in s] for s in d]
        elif k == "vf":
            d.vectorformat = op["vf"]
        elif k == "badvf":
            d.setVectorFormat("4d")
        elif k == "newseq":
            d.newSequence()
        elif k == "rmseq":
            d.removeSequence(op["i"])
        elif k == "goto":
            d.gotoSequence(op["i"])
        elif k == "assign":
            d.assignClasses()
        elif k == "copy":
            self.objs.append(d.copy())
        elif k == "save":
            fn = os.path.join(self.tmp, "f%s" % op.get("ext", ".pkl"))
            kw = {"compact": True} if op["compact"] else {}
            d.saveToFile(fn, **kw) if op.get("ext") != ".dat" else d.saveToFile(fn, format="pickle", **kw)
            self.objs.append(type(d).loadFromFile(fn) if op.get("ext") != ".dat" else DataSet.loadFromFile(fn, format="pickle"))
        return []

    def step(self, op):
        op = dict(op)
        op["kind"] = ""
        err, ret = guarded(lambda: self.apply(op), [])
        obs = []
        for d in self.objs:
            e, b = guarded(lambda: observe(d))
            obs.append(b if not e else {"err": e})
        op.update(err=err, ret=ret, obs=obs)
        return op


def run(cfg, ops, name):
    tmp = tempfile.mkdtemp(dir=os.getcwd())
    try:
        w = World(cfg, tmp)
        steps = []
        it = iter(ops(w) if callable(ops) else ops)

        def nxt():
            op = next(it, None)
            if op is not None:
                steps.append(w.step(op))
            return op is not None
        while True:
            e, more = guarded(nxt, False)
            if e:      # the dataset no longer answers the questions needed to choose the next edit
                steps.append(dict(w.step({"op": "reset", "o": 1}), err="choosing the next edit: " + e))
            if not more:
                break
        return {"name": name, "cfg": cfg, "steps": steps}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dump(job, nm, tr, n=400):
    for i in range(0, len(tr), n):
        job.write("%s%d" % (nm, i), tr[i:i + n])


def replay(job):
    dump(job, "replay", [run(b["cfg"], b["ops"], "tlc-%d" % k) for k, b in enumerate(job.behaviours)])


def rnd(job):
    rng = job.rng
    tr = []
    for t in range(job.args["count"]):
        cls = rng.choice(job.args["classes"])
        cfg = {"cls": cls, "d1": rng.randint(1, 4), "d2": 1 if "Class" in cls else rng.randint(1, 3), "rows0": []}
        val = lambda: rng.randint(-99, 999)
        if cls in ("SupervisedDataSet", "SequentialDataSet") and rng.random() < 0.3:
            cfg["rows0"] = [[[val() for _ in range(cfg["d1"])], [val() for _ in range(cfg["d2"])]] for _ in range(rng.randint(1, 9))]
        n = rng.randint(10, job.args.get("len", 40))
        mode = rng.choice(["grow", "mixed", "churn"])
        maxobj = rng.choice(job.args.get("objs", [1, 1, 1, 2, 3]))
        seq, classy = cls in SEQ, "Class" in cls

        def ops(w):
            for _ in range(n):
                o = rng.randrange(len(w.objs))
                d = w.objs[o]
                o1 = {"o": o + 1}
                L = len(d)
                row = lambda l: [rng.randint(0, 3) if classy and l == "target" else val() for _ in range(d.getDimension(l))]
                c = ["add"] * {"grow": 30, "mixed": 10, "churn": 6}[mode] + ["next", "get", "get", "iter", "reset", "badadd", "badadd", "badapp"]
                if not (seq or classy) or rng.random() < 0.5:
                    c += ["field", "append", "append", "convert", "badvf"]
                if not seq:
                    c += ["vf"]
                c += ["poke"]
                if mode == "churn":
                    c += ["clear"]
                if cls == "DataSet":
                    c += ["link", "unlink", "set", "unlink0"]
                elif not (seq or classy):
                    c += ["setall"]
                if seq:
                    c += ["newseq"] * 4 + ["rmseq"] * (4 if mode == "churn" else 1) + ["goto"] * 2
                if classy:
                    c += ["assign"]
                if len(w.objs) < maxobj:
                    c += ["copy", "save"] * 3
                k = rng.choice(c)
                if k in ("link", "assign") and d.vectorformat == "list":
                    continue
                if k == "add":
                    if not d.link:
                        continue
                    rws = [row(l) for l in d.link]
                    if cls == "ImportanceDataSet" and rng.random() < 0.4:
                        rws[-1] = [1] * len(rws[-1])
                    yield dict(o1, op="add", rows=rws, via=rng.choice(["addSample", "appendLinked", "array"] if cls != "DataSet" else ["appendLinked", "array"]))
                elif k == "badadd":
                    if not d.link:
                        continue
                    rws = [row(l) for l in d.link]
                    q = rng.random()
                    if q < 0.3:
                        rws = rws[:-1]
                    elif q < 0.5:
                        rws.append([1])
                    else:
                        j = rng.randrange(len(rws))
                        rws[j] = rws[j] + [5] * rng.randint(1, 2)
                    yield dict(o1, op="add", rows=rws, via=rng.choice(["appendLinked", "array"]))
                elif k == "setall":
                    if not d.link:
                        continue
                    m = rng.randint(1, 6)
                    yield dict(o1, op="setall", many=[[row(l) for _ in range(m)] for l in d.link])
                elif k == "badapp":
                    if d.link:
                        l = rng.choice(d.link)
                        yield dict(o1, op="append", l=l, row=row(l))
                elif k == "field":
                    l = "x%d" % rng.randrange(3)
                    if not d.hasField(l):
                        yield dict(o1, op="field", l=l, dim=rng.randint(1, 3))
                elif k == "append":
                    free = [l for l in d.getFieldNames() if l not in d.link and l not in ("sequence_index", "class")]
                    if free:
                        l = rng.choice(free)
                        r = row(l)
                        if rng.random() < 0.15:
                            r = r + [1, 2]
                        yield dict(o1, op="append", l=l, row=r)
                elif k == "convert":
                    l = rng.choice([l for l in d.getFieldNames() if l != "sequence_index"])
                    if d.vectorformat != "list":
                        yield dict(o1, op="convert", l=l, t=rng.choice(["int", "float"]))
                elif k == "badvf":
                    yield dict(o1, op="badvf")
                elif k == "vf":
                    yield dict(o1, op="vf", vf=rng.choice(["none", "1d", "2d", "list"]))
                elif k == "poke":
                    ok = [l for l in d.getFieldNames() if l not in ("sequence_index", "class") and len(d.getField(l)) > 0 and not (classy and l == "target")]
                    if ok and d.vectorformat != "list":
                        l = rng.choice(ok)
                        yield dict(o1, op="poke", l=l, i=rng.randrange(len(d.getField(l))), row=row(l))
                elif k == "clear":
                    if rng.random() < 0.4:
                        yield dict(o1, op="clear", all=rng.random() < 0.3 and not seq)
                elif k in ("next", "reset"):
                    yield dict(o1, op=k)
                elif k == "iter":
                    yield dict(o1, op="iter")
                elif k == "get":
                    yield dict(o1, op="get", i=rng.choice([rng.randrange(max(1, L)), L, L + 1, -1, L - 1, -L]), via=rng.choice(["getSample", "getLinked"]))
                elif k == "link":
                    names = d.getFieldNames()
                    rng.shuffle(names)
                    yield dict(o1, op="link", ls=names[:rng.randint(1, len(names))])
                elif k == "unlink":
                    if len(d.link) > 1:
                        yield dict(o1, op="unlink", ls=[rng.choice(d.link)])
                elif k == "unlink0":
                    yield dict(o1, op="unlink", ls=[])
                elif k == "set":
                    free = [l for l in d.getFieldNames() if l not in d.link]
                    if free:
                        dim = rng.randint(1, 3)
                        yield dict(o1, op="set", l=rng.choice(free), rows=[[val() for _ in range(dim)] for _ in range(rng.randint(1, 5))])
                elif k == "newseq":
                    yield dict(o1, op="newseq")
                elif k in ("rmseq", "goto"):
                    ns = d.getNumSequences()
                    yield dict(o1, op=k, i=rng.choice([rng.randrange(ns), rng.randrange(ns), ns - 1, ns]))
                elif k == "assign":
                    yield dict(o1, op="assign")
                elif k == "copy":
                    yield dict(o1, op="copy")
                elif k == "save":
                    yield dict(o1, op="save", compact=rng.random() < 0.5 and d.vectorformat != "list", ext=rng.choice([".pkl", ".dat"]))
        tr.append(run(cfg, ops, "random-%d" % t))
    dump(job, "rnd", tr, 150)


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
