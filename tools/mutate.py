#!/usr/bin/env python3
"""Mutation campaign (not a check): plants small syntactic changes in the files a property is anchored to, one at a
time, in a scratch copy, and reports which ones the property's quick check does not notice.
usage: mutate.py SCRATCH_REPO OUT.jsonl PER_FILE SEED [PROP...]
The model-checking part of a check does not depend on the code and is skipped; a mutant whose recorded executions are
byte-identical to the original's is counted as unnoticed without running TLC."""
import ast, hashlib, importlib, json, os, random, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, outp, per, seed, only = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
os.environ["VERIF_REPO"] = scratch
sys.path.insert(0, os.path.join(V, "lib"))
import core

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}


def mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(a, z, s, what):
        out.append((b[:a] + s.encode() + b[z:], what, b[:a].count(b"\n") + 1, b[a:z].decode()[:80], s[:80]))

    def between(l, r):
        return pos(l)[1], pos(r)[0]
    infn = set()
    for f in ast.walk(t):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(f):
                infn.add(id(n))
    for n in ast.walk(t):
        if id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, z = between(n.left, n.comparators[0])
            if type(n.ops[0]) in CMP and b"(" not in b[a:z] and b")" not in b[a:z]:
                rep(a, z, " %s " % CMP[type(n.ops[0])], "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = between(n.left, n.right)
            if b"(" not in b[a:z] and b")" not in b[a:z]:
                rep(a, z, " %s " % BIN[type(n.op)], "arith")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, z = between(n.target, n.value)
            rep(a, z, " %s= " % BIN[type(n.op)], "augarith")
            rep(a, z, " = ", "augassign")
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, z = between(n.values[0], n.values[1])
            if b"(" not in b[a:z] and b")" not in b[a:z]:
                rep(a, z, " or " if isinstance(n.op, ast.And) else " and ", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, z = pos(n)
            rep(a, z, "(" + b[slice(*pos(n.operand))].decode() + ")", "unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, z = pos(n)
            rep(a, z, repr(n.value + 1), "const+1")
            if n.value == 1:
                rep(a, z, "0", "const0")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(*pos(n), str(not n.value), "boolconst")
        elif isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(*pos(n), "pass", "delete statement")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            rep(*pos(n), b[slice(*pos(n.func.value))].decode(), "no copy")
        elif isinstance(n, ast.If):
            rep(*pos(n.test), "True", "if True")
            rep(*pos(n.test), "False", "if False")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
            x, y = (b[slice(*pos(q))].decode() for q in n.args)
            if x != y:
                rep(pos(n.args[0])[0], pos(n.args[1])[1], y + ", " + x, "swap args")
        elif isinstance(n, ast.Slice) and n.upper is not None:
            p = pos(n.upper)
            rep(*p, b[slice(*p)].decode() + " - 1", "slice end")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(*pos(n), "pass", "no jump")
    ok = []
    for m in out:
        try:
            ast.parse(m[0])
            ok.append(m)
        except SyntaxError:
            pass
    return ok


GEN = {}
BASE = {}


class Noticed(Exception):
    pass


class C(core.Ctx):
    """skips what does not depend on the code; compares recordings with those of the original"""
    base = False

    def mc(self, *a, **k):
        pass

    def gen(self, *a, **k):
        key = (self.pid, repr(a), repr(sorted(k.items())))
        if key not in GEN:
            GEN[key] = core.Ctx.gen(self, *a, **k)
        return GEN[key]

    def parallel(self, *f):
        for g in f:
            g()

    def drive(self, script, mode, args=None, behaviours=None, timeout=300):
        fs = core.Ctx.drive(self, script, mode, args, behaviours, timeout)
        self.tag = (self.pid, script, mode, json.dumps(args, sort_keys=True), len(behaviours or ()))
        keep = []
        for f in fs:
            h = hashlib.md5(open(f, "rb").read()).hexdigest()
            k = self.tag + (os.path.basename(f),)
            if self.base:
                BASE[k] = h
            elif BASE.get(k) == h:
                continue
            keep.append(f)
        return keep

    def validate(self, module, files, **k):
        if self.base or not files:
            return
        self.changed = True
        core.Ctx.validate(self, module, files, **k)
        if self.failures:
            raise Noticed()


def once(pid, base=False):
    ctx = C(pid, "quick", 1)
    ctx.base, ctx.changed = base, False
    try:
        importlib.import_module("p_" + pid).run(ctx)
        return "same recordings" if not ctx.changed else "accepted"
    except Noticed:
        return "caught: " + ctx.failures[0]["clauses"][:100]
    except core.DriverDied:
        return "caught: driver died"
    except core.MachineryError as e:
        return "machinery: " + str(e)[:100]
    finally:
        ctx.close()


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
rng = random.Random(seed)
out = open(outp, "a")
by = {}
for p in props:
    for f in p["anchors"]["files"]:
        by.setdefault(f, []).append(p["id"])
done = set()
for p in props:
    if only and p["id"] not in only:
        continue
    for f in p["anchors"]["files"]:
        if f in done:
            continue
        done.add(f)
        path = os.path.join(scratch, f)
        src = open(path).read()
        ms = mutants(src)
        rng.shuffle(ms)
        ids = [p["id"]] + [q for q in by[f] if q != p["id"]]
        for m in ms[:per]:
            for q in ids:
                if not any(k[0] == q for k in BASE):
                    once(q, True)
            try:
                with open(path, "wb") as fh:
                    fh.write(m[0])
                res = {}
                for q in ids:
                    res[q] = once(q)
                    if res[q].startswith("caught"):
                        break
            finally:
                with open(path, "w") as fh:
                    fh.write(src)
            out.write(json.dumps({"file": f, "line": m[2], "what": m[1], "old": m[3], "new": m[4], "caught": any(v.startswith("caught") for v in res.values()), "res": res}) + "\n")
            out.flush()
