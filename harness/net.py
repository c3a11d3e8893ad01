"""Random networks of integer modules built through the public API and driven through random operation
histories; every step records what the network shows (see specs/Net.tla)."""
import copy, os, pickle, string, tempfile
from common import *
from pybrain.structure import LinearLayer, BiasUnit, FeedForwardNetwork, RecurrentNetwork
from pybrain.structure.modules.relulayer import ReluLayer
from pybrain.structure.modules.gate import MultiplicationLayer
from pybrain.structure.moduleslice import ModuleSlice
from pybrain.structure.modulemesh import ModuleMesh
from pybrain.structure.connections import FullConnection, IdentityConnection, LinearConnection, FullNotSelfConnection
from pybrain.structure.connections.permutation import PermutationConnection
from pybrain.structure.connections.subsampling import SubsamplingConnection
from pybrain.structure.connections.shared import (MotherConnection, SharedFullConnection, SharedSubsamplingConnection,
                                                  SharedConnection)
from pybrain.structure.networks.network import Network
from pybrain.tools.customxml import NetworkWriter, NetworkReader
from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet

LAYER = {"lin": LinearLayer, "relu": ReluLayer, "mul": MultiplicationLayer}
PLAIN = {"full": FullConnection, "id": IdentityConnection, "lin": LinearConnection, "fns": FullNotSelfConnection,
         "sub": SubsamplingConnection, "perm": PermutationConnection}


def indim(m):
    return 2 * m["n"] if m["k"] == "mul" else 0 if m["k"] == "bias" else m["n"]


# ------------------------------------------------------------------ plans
class Plan(object):
    """One network level. mods: dicts k,n (k 'net' has sub: Plan); conns: t,a,b,a0,a1,b0,b1,gr,rec,late"""

    def __init__(self, rng, top, nmods, depth, opts):
        self.rng = rng
        self.mods, self.conns = [], []
        self.opts = opts
        r = rng
        theme = r.choice([3, 4, 6]) if r.random() < 0.3 else 0     # many modules of one size
        for j in range(nmods):
            if depth > 0 and r.random() < 0.35:
                sub = Plan(r, False, r.randint(1, 3), depth - 1, opts)
                self.mods.append({"k": "net", "sub": sub, "ni": sub.ni, "no": sub.no})
            else:
                k = r.choice(["lin", "lin", "lin", "relu", "mul"]) if not (opts["nomul"]) else r.choice(["lin", "lin", "relu"])
                n = theme if theme and r.random() < 0.8 else r.choice([1, 2, 2, 3, 4])
                if k == "mul":
                    n = r.choice([1, 2])
                self.mods.append({"k": k, "n": n, "ni": 2 * n if k == "mul" else n, "no": n})
        nb = r.choice([0, 0, 1, 1, 2])
        perm = list(range(nmods))
        self.ins = sorted(r.sample(perm, r.choice([1, 1, 2]) if nmods > 1 else 1))
        self.outs = r.sample(perm, r.choice([1, 1, 2]) if nmods > 1 else 1)
        r.shuffle(self.ins)
        for _ in range(nb):
            self.mods.append({"k": "bias", "n": 1, "ni": 0, "no": 1})
        self.ni = sum(self.mods[m]["ni"] for m in self.ins)
        self.no = sum(self.mods[m]["no"] for m in self.outs)
        self.groups = []     # size, kind
        # topological position: random permutation with biases anywhere
        order = list(range(len(self.mods)))
        r.shuffle(order)
        pos = {m: k for k, m in enumerate(order)}
        pairs = [(a, b) for a in order for b in order if pos[a] < pos[b] and self.mods[b]["ni"] > 0]
        r.shuffle(pairs)
        want = r.randint(1, max(1, min(len(pairs), nmods + 2))) if pairs else 0
        # keep outputs reachable more often: connect consecutive ones
        for a, b in zip(order, order[1:]):
            if self.mods[b]["ni"] > 0 and r.random() < 0.8:
                self.add(a, b, False)
        for a, b in pairs[:want]:
            self.add(a, b, False)
        if top and opts["rec"]:
            for _ in range(r.randint(1, 3)):
                a, b = r.choice(order), r.choice(order)
                if self.mods[b]["ni"] > 0:
                    self.add(a, b, True)
        self.nested = any(m["k"] == "net" for m in self.mods)

    def slice_(self, n, size=None):
        r = self.rng
        if size is not None:
            lo = r.randint(0, n - size)
            return lo, lo + size
        if r.random() < 0.6:
            return 0, n
        lo = r.randint(0, n - 1)
        return lo, r.randint(lo + 1, n)

    def add(self, a, b, rec):
        r = self.rng
        no, ni = self.mods[a]["no"], self.mods[b]["ni"]
        t = r.choice(["full"] * 4 + ["id", "id", "lin", "perm", "fns", "sub"] + (["perm"] * 3 if min(no, ni) >= 3 else []))
        if t == "sub" and self.opts["nosub"]:
            t = "full"
        c = {"t": t, "a": a, "b": b, "rec": rec, "perm": [0], "bs": 1, "shared": False, "late": False}
        if t in ("id", "lin", "perm", "fns"):
            size = r.choice([r.randint(1, min(no, ni)), min(no, ni)])
            c["a0"], c["a1"] = self.slice_(no, size)
            c["b0"], c["b1"] = self.slice_(ni, size)
            if r.random() < 0.4 and no == ni:
                c["a0"], c["a1"], c["b0"], c["b1"] = 0, no, 0, ni
                size = no
            if t == "perm":
                bs = r.choice([d for d in (1, 2, 3, 4) if size % d == 0 and (size // d >= 3 or size < 3 or r.random() < 0.3)] or [1])
                c["bs"] = bs
                c["perm"] = r.sample(range(size // bs), size // bs)
        else:
            c["b0"], c["b1"] = self.slice_(ni)
            if t == "sub":
                c["a0"], c["a1"] = self.slice_(no, r.choice([d for d in (1, 2, 4) if d <= no]))
            else:
                c["a0"], c["a1"] = self.slice_(no)
        di, do = c["a1"] - c["a0"], c["b1"] - c["b0"]
        size = {"full": di * do, "fns": di * do, "lin": do, "sub": do}.get(t, 0)
        c["gr"] = None
        if size:
            cand = [g for g, gr in enumerate(self.groups) if gr["shared"] and gr["t"] == t and gr["dims"] == (di, do)]
            if t in ("full", "sub") and cand and r.random() < 0.7:
                c["gr"], c["shared"] = r.choice(cand), True
            else:
                sh = t in ("full", "sub") and r.random() < self.opts["share"]
                self.groups.append({"size": size, "t": t, "shared": sh, "dims": (di, do), "late": False})
                c["gr"], c["shared"] = len(self.groups) - 1, sh
        if size == 0 and t in ("full", "fns", "lin", "sub"):
            return
        self.conns.append(c)


def flatten(plan):
    """cfg modules/conns (1-based) of the flattened network, group list with (level path, local index)"""
    mods, conns, groups = [], [], []

    def lvl(p, path):
        base = []     # per local module: (in port, out port) flattened numbers
        gmap = {}
        for j, m in enumerate(p.mods):
            if m["k"] == "net":
                mods.append({"k": "lin", "n": m["ni"]})
                pin = len(mods)
                sub, sg = lvl(m["sub"], path + [j])
                mods.append({"k": "lin", "n": m["no"]})
                pout = len(mods)
                off = 0
                for q in m["sub"].ins:
                    d = m["sub"].mods[q]["ni"]
                    conns.append({"t": "id", "a": pin, "b": sub[q][0], "a0": off, "a1": off + d, "b0": 0, "b1": d, "g": 0, "rec": False, "perm": [0], "bs": 1, "late": False})
                    off += d
                off = 0
                for q in m["sub"].outs:
                    d = m["sub"].mods[q]["no"]
                    conns.append({"t": "id", "a": sub[q][1], "b": pout, "a0": 0, "a1": d, "b0": off, "b1": off + d, "g": 0, "rec": False, "perm": [0], "bs": 1, "late": False})
                    off += d
                base.append((pin, pout))
            else:
                mods.append({"k": m["k"], "n": m["n"]})
                base.append((len(mods), len(mods)))
        for ci, c in enumerate(p.conns):
            g = 0
            if c["gr"] is not None:
                if c["gr"] not in gmap:
                    groups.append({"path": path, "gr": c["gr"], "size": p.groups[c["gr"]]["size"], "t": c["t"]})
                    gmap[c["gr"]] = len(groups)
                g = gmap[c["gr"]]
            conns.append({"t": c["t"], "a": base[c["a"]][1], "b": base[c["b"]][0], "a0": c["a0"], "a1": c["a1"], "b0": c["b0"],
                          "b1": c["b1"], "g": g, "rec": c["rec"], "perm": c["perm"], "bs": c["bs"], "late": c["late"]})
        return base, gmap
    base, _ = lvl(plan, [])
    ins = [base[m][0] for m in plan.ins]
    outs = [base[m][1] for m in plan.outs]
    early = [c for c in conns if not c["late"]]
    late = [c for c in conns if c["late"]]
    for c in early + late:
        del c["late"]
    return mods, early + late, ins, outs, groups, len(early)


def bound(mods, conns, ins, outs, w, x, T, d=1):
    """upper bound of every value (d=0) or also of every derivative (d=1) of the polynomial network for |weights| <= w, |inputs| <= x"""
    prev, mx = None, 0
    for _ in range(T):
        o, todo = {}, set(range(1, len(mods) + 1))
        while todo:
            prog = False
            for m in list(todo):
                pre = [c for c in conns if c["b"] == m and not c["rec"]]
                if any(c["a"] in todo for c in pre):
                    continue
                prog = True
                todo.discard(m)
                mod = mods[m - 1]
                v = [(x + d) if m in ins else 0] * indim(mod)
                for c in conns:
                    if c["b"] != m or (c["rec"] and prev is None):
                        continue
                    src = (prev if c["rec"] else o)[c["a"]][c["a0"]:c["a1"]]
                    for j in range(c["b0"], c["b1"]):
                        if c["t"] in ("id", "lin"):
                            v[j] += (w + d if c["t"] == "lin" else 1) * src[j - c["b0"]]
                        elif c["t"] == "perm":
                            v[j] += max(src)
                        else:
                            v[j] += (4 + d if c["t"] == "sub" else w + d) * sum(src)
                n = mod["n"]
                o[m] = [v[i] * v[i + n] for i in range(n)] if mod["k"] == "mul" else [1] if mod["k"] == "bias" else v
                mx = max([mx] + o[m] + v)
            if not prog:
                return 0
        prev = o
        if mx > 1e9:
            return mx
    return mx


# ------------------------------------------------------------ real networks
def rname(rng):
    return "".join(rng.choice(string.ascii_letters + "  _-()<&\"'é") for _ in range(rng.randint(1, 4))).strip() or "z"


class Real(object):
    def __init__(self, plan, rng, kind, named):
        self.plan, self.rng, self.named = plan, rng, named
        self.used = set()
        self.net = self.level(plan, kind, [])

    def name(self):
        if not self.named:
            return None
        while True:
            n = rname(self.rng) + str(len(self.used))
            if n not in self.used:
                self.used.add(n)
                return n

    def endpoint(self, mod, k, lo, hi, out, kw):
        """an end of a connection: the module, slice arguments, a ModuleSlice (of a slice), or a mesh component"""
        n = mod.outdim if out else mod.indim
        pre = "inSlice" if out else "outSlice"
        sl = "outSlice" if out else "inSlice"
        r = self.rng
        if (lo, hi) == (0, n):
            return mod
        v = r.choice(["args", "slice", "slice2", "mesh", "mixed"])
        if v == "mesh" and mod.indim == mod.outdim and n % (hi - lo) == 0 and lo % (hi - lo) == 0:
            return ModuleMesh.viewOnFlatLayer(mod, (n // (hi - lo),), "mesh")[(lo // (hi - lo),)]
        if v == "slice":
            return ModuleSlice(mod, **{sl + "From": lo, sl + "To": hi})
        if v == "slice2" and hi - lo < n - 1:
            p, q = (lo - 1, hi) if lo > 0 else (lo, hi + 1)
            first = ModuleSlice(mod, **{sl + "From": p, sl + "To": q})
            return ModuleSlice(first, **{sl + "From": lo - p, sl + "To": hi - p})
        if v == "mixed" and hi - lo < n - 1:
            p, q = (lo - 1, hi) if lo > 0 else (lo, hi + 1)
            kw[pre + "From"], kw[pre + "To"] = lo - p, hi - p
            return ModuleSlice(mod, **{sl + "From": p, sl + "To": q})
        if lo > 0 or r.random() < 0.5:
            kw[pre + "From"] = lo
        if hi < n or r.random() < 0.5:
            kw[pre + "To"] = hi
        return mod

    def level(self, p, kind, path):
        r = self.rng
        nm = self.name()
        if kind == "ff":
            net = FeedForwardNetwork(name=nm)
        elif kind == "rec":
            net = RecurrentNetwork(name=nm)
        else:
            net = RecurrentNetwork(name=nm, forget=True) if r.random() < 0.5 else RecurrentNetwork(nm)
            net.forget = True
        p.real, p.net, p.mothers, p.pending = [], net, {}, []
        for j, m in enumerate(p.mods):
            if m["k"] == "net":
                x = self.level(m["sub"], "ff", path + [j])
            elif m["k"] == "bias":
                x = BiasUnit(name=self.name())
            else:
                x = LAYER[m["k"]](m["n"], name=self.name())
            p.real.append(x)
        mid = [j for j in range(len(p.mods)) if j not in p.ins and j not in p.outs]
        todo = [("m", j) for j in mid] + [("i", None), ("o", None)]
        r.shuffle(todo)
        for k, j in todo:
            if k == "m":
                net.addModule(p.real[j])
            elif k == "i":
                for q in p.ins:
                    net.addInputModule(p.real[q])
            else:
                for q in p.outs:
                    net.addOutputModule(p.real[q])
        cs = list(p.conns)
        r.shuffle(cs)
        for c in cs:
            c["real"] = self.conn(p, c)
            if not c["late"]:
                self.link(net, c)
        if path:
            net.sortModules()
        return net

    def link(self, net, c):
        (net.addRecurrentConnection if c["rec"] else net.addConnection)(c["real"])

    def conn(self, p, c):
        kw = {}
        a = self.endpoint(p.real[c["a"]], c, c["a0"], c["a1"], True, kw)
        b = self.endpoint(p.real[c["b"]], c, c["b0"], c["b1"], False, kw)
        if c["shared"]:
            if c["gr"] not in p.mothers:
                p.mothers[c["gr"]] = MotherConnection(p.groups[c["gr"]]["size"], name=self.name())
            cl = SharedFullConnection if c["t"] == "full" else SharedSubsamplingConnection
            x = cl(p.mothers[c["gr"]], a, b, **kw)
            x.name = self.name() or "sh%d" % id(x)
            return x
        if c["t"] == "perm":
            return PermutationConnection(a, b, c["perm"], c["bs"], name=self.name(), **kw)
        return PLAIN[c["t"]](a, b, name=self.name(), **kw)


def subnet(net, plan0, path):
    """the nested network at a path of module indices of the plan, found by the names of the plan's modules"""
    for j in path:
        net = net[plan0.mods[j]["name"]]
        plan0 = plan0.mods[j]["sub"]
    return net, plan0


def conns_of(net):
    res = []
    for cs in net.connections.values():
        res += cs
    return res + list(getattr(net, "recurrentConns", []))


class Inst(object):
    """a network together with the containers of each parameter group, looked up by name"""

    def __init__(self, net, plan, groups, upto):
        self.net = net
        self.conts = []
        for g in groups:
            sub, p = subnet(net, plan, g["path"])
            objs = []
            names = [c["name"] for c in p.conns if c["gr"] == g["gr"] and (upto or not c["late"])]
            for c in conns_of(sub):
                if c.name in names:
                    objs.append(c)
                    if isinstance(c, SharedConnection):
                        objs.append(c.mother)
            if len([o for o in objs if not isinstance(o, MotherConnection)]) != len(names):
                raise Malformed("connection lost")
            self.conts.append(objs)

    def probe(self):
        net = self.net
        if not net.paramdim:
            self.ord = []
            return
        old = net.params.copy()
        net.params[:] = range(1, net.paramdim + 1)
        st = {}
        for g, cs in enumerate(self.conts):
            if cs:
                st[g + 1] = float(cs[0].params[0])
        self.ord = sorted(st, key=lambda g: st[g])
        net.params[:] = old

    def obs(self):
        net = self.net

        def f():
            P = net.paramdim
            q = {"err": "", "pdim": I(len(net)), "params": IL(net.params) if P else [], "derivs": IL(net.derivs) if P else [],
                 "groups": [], "gderivs": []}
            if len(net) != P:
                raise Malformed("len differs from paramdim")
            for cs in self.conts:
                if not cs:
                    q["groups"].append([])
                    q["gderivs"].append([])
                    continue
                v, d = [IL(c.params) for c in cs], [IL(c.derivs) for c in cs]
                if any(x != v[0] for x in v) or any(x != d[0] for x in d):
                    raise Malformed("shared connections show different parameters")
                q["groups"].append(v[0])
                q["gderivs"].append(d[0])
            return q
        e, q = guarded(f)
        return q if e == "" else {"err": e, "pdim": 0, "params": [], "derivs": [], "groups": [[] for _ in self.conts],
                                  "gderivs": [[] for _ in self.conts]}


def desc(net, pre=""):
    res = ["%s%s %s in %s out %s dims %d %d forget %s" % (pre, type(net).__name__, net.name, [m.name for m in net.inmodules],
                                                       [m.name for m in net.outmodules], net.indim, net.outdim,
                                                       bool(getattr(net, "forget", False)))]
    for m in sorted(net.modules, key=lambda m: m.name):
        if isinstance(m, Network):
            res += desc(m, pre + m.name + "/")
        else:
            res.append("%sM %s %s %d %d" % (pre, type(m).__name__, m.name, m.indim, m.outdim))
    for rec, cs in (("C", [c for x in net.connections.values() for c in x]), ("R", getattr(net, "recurrentConns", []))):
        for c in sorted(cs, key=lambda c: c.name):
            res.append("%s%s %s %s %s[%d:%d] -> %s[%d:%d] %s %s" % (pre, rec, type(c).__name__, c.name, c.inmod.name, c.inSliceFrom,
                       c.inSliceTo, c.outmod.name, c.outSliceFrom, c.outSliceTo, c.mother.name if isinstance(c, SharedConnection) else "",
                       [int(x) for x in c.permutation] if hasattr(c, "permutation") else ""))
    return res


def record_names(p):
    for m, x in zip(p.mods, p.real):
        m["name"] = x.name
        if m["k"] == "net":
            record_names(m["sub"])
    for c in p.conns:
        c["name"] = c["real"].name


def strip(cfg):
    return cfg


def one(job, rng, name, A):
    kind = rng.choice(A.get("kinds", ["ff", "ff", "rec", "forget"]))
    rec = kind != "ff"
    T = rng.choice([2, 3, 4]) if rec else 1
    long_ = rec and rng.random() < A.get("long", 0)
    if long_:
        T = rng.choice([5, 8, 9, 9, 11, 17, 17, 35, 70])
    nosub = rng.random() < A.get("nosub", 0.7)
    for _ in range(200):
        opts = {"rec": rec, "nomul": long_ or rng.random() < 0.5, "nosub": nosub, "share": A.get("share", 0.3)}
        plan = Plan(rng, True, rng.randint(1, 3 if rec else 5), A.get("depth", 1) if rng.random() < 0.4 else 0, opts)
        if not plan.conns:
            continue
        # some top-level connections are added later
        if rng.random() < A.get("late", 0.3):
            cs = [c for c in plan.conns]
            rng.shuffle(cs)
            for c in cs[:rng.randint(1, max(1, len(cs) // 2))]:
                c["late"] = True
            for g, gr in enumerate(plan.groups):   # order of group numbers does not matter
                pass
        mods, conns, ins, outs, groups, na = flatten(plan)
        W = rng.choice([1, 2]) if not rec else 1
        if long_:   # linear: a derivative is a sum over the steps of (value) * (propagated error)
            if bound(mods, conns, ins, outs, W, 2, T, 0) * bound(mods, conns, ins, outs, W, 1, T, 0) * T * plan.no * 24 < 1e9:
                break
        elif bound(mods, conns, ins, outs, W, 2, T) < 3e5:
            break
    else:
        return None
    real = Real(plan, rng, kind, rng.random() < 0.75)
    record_names(plan)

    def gval(g):
        if groups[g]["t"] == "sub":
            return [rng.choice([-4, 0, 4]) for _ in range(groups[g]["size"])]
        return [rng.randint(-W, W) for _ in range(groups[g]["size"])]
    w0 = [gval(g) for g in range(len(groups))]
    late = na < len(conns)
    cfg = {"kind": kind, "mods": mods, "conns": conns, "ins": ins, "outs": outs, "na": na, "w0": w0,
           "groups": [g["size"] for g in groups], "ord": [[], []], "desc": []}
    steps = []

    def setup():
        for g, gr in enumerate(groups):
            sub, p = subnet(real.net, plan, gr["path"])
            for c in p.conns:
                if c["gr"] == gr["gr"]:
                    c["real"].params[:] = w0[g]
    setup()
    insts = []

    def build():
        real.net.sortModules()
        insts.append(Inst(real.net, plan, groups, not late))
        insts[0].probe()
    e, _ = guarded(build)
    cfg["desc"] = guarded(lambda: desc(real.net), [])[1]
    step = {"op": "build", "o": 1, "err": e}
    if e:
        return {"name": name, "cfg": cfg, "steps": [step]}
    cfg["ord"][0] = insts[0].ord
    steps.append(step)
    ext = not late
    st = {0: [0, 0, 0]}      # per object: steps since reset, steps back, passes
    ni, no = plan.ni, plan.no
    has_sub = any(c["t"] == "sub" for c in conns)
    tmpd = tempfile.mkdtemp(dir=job.out)

    def vec(n, hi=2):
        return [rng.randint(-hi, hi) for _ in range(n)]

    def copy_(net, how):
        if how == "copy":
            return net.copy()
        if how == "deepcopy":
            return copy.deepcopy(net)
        if how == "pickle":
            return pickle.loads(pickle.dumps(net))
        fn = os.path.join(tmpd, "n%d.xml" % len(insts))
        other = FeedForwardNetwork(name="other")
        m1, m2 = LinearLayer(1, name=plan.mods[0]["name"]), LinearLayer(1, name="q")
        other.addInputModule(m1)
        other.addOutputModule(m2)
        other.addConnection(FullConnection(m1, m2, name="cc"))
        other.sortModules()
        v = rng.choice(["only", "first", "second", "named", "firstnamed", "twice"])
        if v in ("only", "first", "firstnamed", "twice"):
            NetworkWriter.writeToFile(net, fn)
            if v != "only":
                NetworkWriter.appendToFile(other, fn)
        else:
            NetworkWriter.writeToFile(other, fn)
            NetworkWriter.appendToFile(net, fn)
        if v == "twice":
            NetworkReader.readFrom(fn, index=1)
        if v in ("named", "firstnamed"):
            return NetworkReader.readFrom(fn, name=net.name)
        if v != "second" and rng.random() < .5:
            return NetworkReader.readFrom(fn)
        return NetworkReader.readFrom(fn, index=1 if v == "second" else 0)

    for _k in range(A.get("len", 25) + (max(30, T + 15) if long_ else 0)):
        o = rng.randrange(len(insts))
        it = insts[o]
        net = it.net
        P = net.paramdim
        h = st[o]
        choices = []
        can_act = (kind == "ff") or (h[1] == 0 and h[0] < T) or (kind == "forget" and h[0] < T)
        if can_act:
            choices += ["act"] * (40 if long_ and h[0] < T - 1 else 8)
        if not has_sub and ((kind == "ff" and h[0] > 0 and h[1] == 0) or (kind == "rec" and h[0] > h[1])):
            choices += ["back"] * (8 if h[2] < (24 if long_ else 12) else 0)
        if kind == "forget" and h[0] > 0 and rng.random() < 0.1:
            choices += ["back"]
        if h[0] > 0:
            choices += ["reset"] * (4 if not can_act else 1)
        if P:
            choices += ["resetd"] * (1 if h[2] < (24 if long_ else 12) else 20) + ["setp", "seti", "seti", "setg", "setbad"]
        if not ext and len(insts) == 1:
            choices += ["extend"]
        if len(insts) < A.get("objs", 3):
            choices += ["copy"] * A.get("copyw", 1)
        choices += ["run"]
        op = rng.choice(choices)
        s = {"op": op, "o": o + 1, "ret": []}
        if op == "act":
            s["x"] = vec(ni)
            fn = lambda: IL(net.activate(s["x"] if rng.random() < 0.5 else numpy.array(s["x"], float)))
            h[0] = 1 if kind == "ff" else h[0] + 1
            h[1] = 0
        elif op == "back":
            s["e"] = vec(no)
            fn = lambda: IL(net.backActivate(numpy.array(s["e"], float)))
            h[1] += 1
            h[2] += 1
        elif op == "reset":
            fn = lambda: net.reset() and [] or []
            st[o] = [0, 0, h[2]]
        elif op == "resetd":
            fn = lambda: net.resetDerivatives() and [] or []
            h[2] = 0
        elif op in ("setp", "setbad"):
            v = []
            for g in it.ord:
                v += gval(g - 1)
            if op == "setbad":
                s["op"] = "setp"
                v = v + [1] if rng.random() < 0.5 or len(v) < 2 else v[:-1]
            s["v"] = v
            if op == "setp" and rng.random() < 0.5:
                def fn():
                    net.params[:] = v
                    return []
            else:
                arr = numpy.array(v, float) if rng.random() < 0.7 else list(v)
                fn = lambda: net._setParameters(arr) and [] or []
        elif op == "seti":
            g = rng.choice(it.ord)
            k = rng.randrange(groups[g - 1]["size"])
            start = 0
            for q in it.ord:
                if q == g:
                    break
                start += groups[q - 1]["size"]
            s["i"], s["x"] = start + k, gval(g - 1)[k]
            via = rng.choice(["net", "cont", "slice"])

            def fn():
                if via == "net":
                    net.params[start + k] = s["x"]
                elif via == "cont":
                    rng.choice(it.conts[g - 1]).params[k] = s["x"]
                else:
                    net.params[start + k:start + k + 1] = [s["x"]]
                return []
        elif op == "setg":
            g = rng.choice(it.ord)
            s["g"], s["v"] = g, gval(g - 1)

            def fn():
                rng.choice(it.conts[g - 1]).params[:] = s["v"]
                return []
        elif op == "extend":
            if h[0] > 0:
                guarded(net.reset)
                steps.append(finish({"op": "reset", "o": 1, "ret": [], "err": ""}, insts))
            st[0] = [0, 0, h[2]]
            ext = True

            def fn():
                for c in plan.conns:
                    if c["late"]:
                        real.link(net, c)
                net.sortModules()
                ni_ = Inst(net, plan, groups, True)
                ni_.probe()
                insts[0] = ni_
                return []
        elif op == "copy":
            how = rng.choice(A.get("hows", ["copy", "deepcopy", "pickle", "xml"]))
            s["how"] = how
            if how == "copy" and h[0] > 0:
                guarded(net.reset)
                steps.append(finish({"op": "reset", "o": o + 1, "ret": [], "err": ""}, insts))
                st[o] = h = [0, 0, h[2]]

            def fn():
                cp = copy_(net, how)
                c = Inst(cp, plan, groups, ext)
                if how == "xml":
                    c.probe()
                else:
                    c.ord = it.ord
                s["ord"] = c.ord
                s["desc"] = desc(cp)
                insts.append(c)
                return []
            st[len(insts)] = [0, 0, 0] if how == "xml" else list(h)
        elif op == "run":
            s["xs"] = [vec(ni) for _ in range(rng.randint(1, T))]

            def fn():
                if rng.random() < 0.5:
                    ds = SupervisedDataSet(ni, 1)
                    for x in s["xs"]:
                        ds.addSample(x, [0])
                else:
                    ds = UnsupervisedDataSet(ni)
                    for x in s["xs"]:
                        ds.addSample(x)
                return IM(net.activateOnDataset(ds))
            st[o] = [0, 0, h[2]]
        e, v = guarded(fn, [])
        s["err"], s["ret"] = e, v if v is not None else []
        if op == "extend":
            s["ord"] = insts[0].ord
            s["desc"] = guarded(lambda: desc(net), [])[1]
        if op == "copy" and e:
            s.setdefault("ord", [])
            s["desc"] = []
        steps.append(finish(s, insts))
        if e and not (op == "setbad" or (op == "back" and kind == "forget")):
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def finish(s, insts):
    s["obs"] = [i.obs() for i in insts]
    return s


def random_(job):
    A = job.args
    tr = []
    while len(tr) < A["count"]:
        e, t = guarded(lambda: one(job, job.rng, "net-%d" % len(tr), A))
        if e:    # the network could not even be put together
            t = {"name": "net-%d" % len(tr), "steps": [{"op": "build", "o": 1, "err": "building: " + e}],
                 "cfg": {"kind": "ff", "mods": [{"k": "lin", "n": 1}], "conns": [], "ins": [1], "outs": [1], "na": 0, "w0": [],
                         "groups": [], "ord": [[], []], "desc": []}}
        if t:
            tr.append(t)
    for k in range(0, len(tr), 400):
        job.write("net%d" % (k // 400), tr[k:k + 400])


class CfgPlan(object):
    """a plan made from a configuration of the specification (no nesting)"""

    def __init__(self, cfg):
        self.mods = [dict(m, ni=indim(m), no=m["n"]) for m in cfg["mods"]]
        self.ins, self.outs = [m - 1 for m in cfg["ins"]], [m - 1 for m in cfg["outs"]]
        uses = [sum(1 for c in cfg["conns"] if c["g"] == g + 1) for g in range(len(cfg["groups"]))]
        self.groups = [{"size": n, "shared": uses[g] > 1} for g, n in enumerate(cfg["groups"])]
        self.conns = []
        for k, c in enumerate(cfg["conns"]):
            self.conns.append(dict(c, a=c["a"] - 1, b=c["b"] - 1, gr=c["g"] - 1 if c["g"] else None, late=k >= cfg["na"],
                                   shared=c["g"] > 0 and uses[c["g"] - 1] > 1))


def replay(job):
    tr = []
    for k, b in enumerate(job.behaviours):
        cfg, rng = b["cfg"], job.rng
        plan = CfgPlan(cfg)
        real = Real(plan, rng, cfg["kind"], rng.random() < 0.5)
        record_names(plan)
        groups = [{"path": [], "gr": g, "size": n} for g, n in enumerate(cfg["groups"])]
        for c in plan.conns:
            if c["gr"] is not None:
                c["real"].params[:] = cfg["w0"][c["gr"]]
        insts, steps = [], []

        def build():
            real.net.sortModules()
            insts.append(Inst(real.net, plan, groups, cfg["na"] == len(cfg["conns"])))
            insts[0].probe()
        e, _ = guarded(build)
        cfg["desc"] = guarded(lambda: desc(real.net), [])[1]
        cfg["ord"] = [insts[0].ord if insts else [], []]
        steps.append({"op": "build", "o": 1, "err": e})
        ext = cfg["na"] == len(cfg["conns"])
        for op in b["ops"] if not e else []:
            s = dict(op, ret=[])
            it = insts[op["o"] - 1]
            net = it.net

            def do():
                if op["op"] == "act":
                    return IL(net.activate(op["x"]))
                if op["op"] == "back":
                    return IL(net.backActivate(numpy.array(op["e"], float)))
                if op["op"] == "reset":
                    net.reset()
                elif op["op"] == "resetd":
                    net.resetDerivatives()
                elif op["op"] == "setp":
                    net._setParameters(numpy.array(op["v"], float))
                elif op["op"] == "seti":
                    net.params[op["i"]] = op["x"]
                elif op["op"] == "extend":
                    net.reset()
                    for c in plan.conns:
                        if c["late"]:
                            real.link(net, c)
                    net.sortModules()
                    insts[0] = Inst(net, plan, groups, True)
                    insts[0].probe()
                elif op["op"] == "copy":
                    if op["how"] == "copy":
                        net.reset()
                    cp = net.copy() if op["how"] == "copy" else copy.deepcopy(net) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(net))
                    c = Inst(cp, plan, groups, ext)
                    c.ord = it.ord
                    s["desc"], s["ord"] = desc(cp), c.ord
                    insts.append(c)
                return []
            s["err"], s["ret"] = guarded(do, [])
            if op["op"] == "extend":
                ext = True
                s["ord"], s["desc"] = insts[0].ord, guarded(lambda: desc(net), [])[1]
            if op["op"] == "copy" and s["err"]:
                s["ord"] = s["desc"] = []
            steps.append(finish(s, insts))
            if s["err"] and op["op"] != "setp":
                break
        tr.append({"name": "beh-%d" % k, "cfg": cfg, "steps": steps})
    for k in range(0, len(tr), 400):
        job.write("beh%d" % (k // 400), tr[k:k + 400])


def cyc(job):
    """sorting refuses exactly the graphs whose ordinary connections have a cycle"""
    tr, r = [], job.rng
    for k in range(job.args["count"]):
        n = r.randint(1, 5)
        rec = r.random() < 0.4
        net = RecurrentNetwork() if rec else FeedForwardNetwork()
        ms = [LinearLayer(1, name=rname(r) + str(j)) for j in range(n)]
        net.addInputModule(ms[0])
        for m in ms[1:-1]:
            net.addModule(m)
        net.addOutputModule(ms[-1])
        conns = []
        for _ in range(r.randint(1, 2 * n)):
            a, b = r.randrange(n), r.randrange(n)
            if a > b and r.random() < 0.6:
                a, b = b, a
            rc = rec and r.random() < 0.4
            c = r.choice([IdentityConnection, FullConnection])(ms[a], ms[b])
            (net.addRecurrentConnection if rc else net.addConnection)(c)
            conns.append({"t": "id", "a": a + 1, "b": b + 1, "a0": 0, "a1": 1, "b0": 0, "b1": 1, "g": 0, "rec": rc, "perm": [0], "bs": 1})
        cfg = {"kind": "rec" if rec else "ff", "mods": [{"k": "lin", "n": 1}] * n, "conns": conns, "ins": [1], "outs": [n],
               "na": len(conns), "w0": [], "groups": [], "ord": [[], []], "desc": []}
        steps = []
        for _try in range(2):      # a refused network stays refused
            e, _ = guarded(net.sortModules)
            steps.append({"op": "build", "o": 1, "err": e})
        tr.append({"name": "cyc-%d" % k, "cfg": cfg, "steps": steps})
    job.write("cyc", tr)


if __name__ == "__main__":
    main({"random": random_, "cyc": cyc, "replay": replay})
