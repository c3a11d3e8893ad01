"""Driver for the capture game (spec Capture)."""
from common import *
from pybrain.rl.environments.twoplayergames import CaptureGame


def code(v):
    return {0: 0, 1: 1, -1: -1, 'x': 2, 'y': 3}.get(v, 9) if not isinstance(v, numpy.ndarray) else 9


def pt(n, p):
    return (p // n, p % n)


def idx(n, pos):
    return I(pos[0]) * n + I(pos[1])


def observe(g, n, ret):
    cells = [pt(n, p) for p in range(n * n)]
    alive = all(g.b[c] in (0, 1, -1) for c in cells)
    o = {"ret": bool(ret), "winner": {None: 0, 1: 1, -1: -1}.get(g.getWinner(), 9), "over": bool(g.gameOver()),
         "board": [code(g.b[c]) for c in cells], "sensors": [code(v) for v in g.getSensors()],
         "arr": IL(list(g.getBoardArray())), "moves": I(g.movesDone), "cells": len(g.b)}
    if alive:
        o["libs"] = [-1 if g.getLiberties(c) is None else I(g.getLiberties(c)) for c in cells]
        o["size"] = [-1 if g.getGroupSize(c) is None else I(g.getGroupSize(c)) for c in cells]
        o["legals"] = [[idx(n, p) for p in g.getLegals(c)] for c in (1, -1)]
        o["accept"] = [[idx(n, p) for p in g.getAcceptable(c)] for c in (1, -1)]
        o["kill"] = [[idx(n, p) for p in g.getKilling(c)] for c in (1, -1)]
        o["islegal"] = [[bool(g.isLegal(c, p)) for p in cells] for c in (1, -1)]
    else:
        o["libs"] = o["size"] = o["legals"] = o["accept"] = o["kill"] = o["islegal"] = []
    str(g)
    return o


def apply(g, n, op):
    if op["op"] == "move":
        pos = 'resign' if op["p"] == -1 else ((n, n) if op["p"] >= n * n else pt(n, op["p"]))
        if op.get("via") == "perform":
            # the environment interface, which returns nothing
            g.performAction((op["c"], pos))
            return True if op.get("legal", True) else False
        return g.doMove(op["c"], pos)
    if op["op"] == "reset":
        g.reset()
        return True
    if op["op"] == "random":
        k = g.randomBoard(op["k"])
        op["ret"] = I(k)
        return True
    if op["op"] == "handicap":
        g.giveHandicap(op["h"], op["c"])
        return True
    raise ValueError(op)


def run(cfg, ops, name):
    n = cfg["n"]
    g = CaptureGame(n, suicideenabled=cfg["suicide"])
    steps = []
    it = iter(ops) if not callable(ops) else None
    k = 0
    while True:
        if it is not None:
            op = next(it, None)
        else:
            op = ops(g, k)
        k += 1
        if op is None:
            break
        op = dict(op)
        err, ret = guarded(lambda: apply(g, n, op))
        obs = {}
        if not err:
            err, obs = guarded(lambda: observe(g, n, ret), {})
        op.update(err=err, obs=obs)
        steps.append(op)
        if err:
            break
        if g.gameOver() and (it is not None or op["op"] != "reset"):
            if it is None and cfg.get("again") and k < cfg["again"]:
                continue
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def replay(job):
    tr = []
    for k, b in enumerate(job.behaviours):
        tr.append(run(b["cfg"], b["ops"], "tlc-%d" % k))
    for i in range(0, len(tr), 4000):
        job.write("replay%d" % i, tr[i:i + 4000])


def rnd(job):
    rng = job.rng
    tr = []
    N = job.args["count"]
    for k in range(N):
        n = rng.choice(job.args["sizes"])
        cfg = {"n": n, "suicide": rng.random() < 0.5, "again": rng.choice([0, 0, 2 * n * n])}
        style = rng.random()
        st = {"c": 1}

        def ops(g, i):
            if i > 3 * n * n:
                return None
            if g.gameOver():
                st["c"] = 1
                return {"op": "reset"}
            if i == 0 and style > 0.9:
                return {"op": "random", "k": rng.randrange(0, n * n)}
            if i == 0 and style > 0.8 and n > 2:
                return {"op": "handicap", "h": rng.randrange(0, 8), "c": 1}
            c = st["c"]
            r = rng.random()
            if style > 0.95 and r < 0.02:
                return {"op": "move", "c": c, "p": -1}
            if style < 0.5 and r < 0.12:  # illegal attempts: occupied or outside
                occ = [p for p in range(n * n) if g.b[pt(n, p)] != 0] + [n * n]
                return {"op": "move", "c": c, "p": rng.choice(occ)}
            if r < 0.15 and style < 0.3:
                c = -c          # the game itself does not enforce alternation
            free = [p for p in range(n * n) if g.b[pt(n, p)] == 0]
            if not free:
                return None
            p = rng.choice(free)
            if style > 0.4:      # long games: avoid immediate captures and suicides when possible
                quiet_ = []
                for q in free:
                    e, ok = guarded(lambda: not g._capture(c, pt(n, q)) and not g._suicide(c, pt(n, q)), True)
                    if ok:
                        quiet_.append(q)
                if quiet_:
                    p = rng.choice(quiet_)
                elif not cfg["suicide"] and rng.random() < 0.5:
                    pass
            st["c"] = -c
            op = {"op": "move", "c": c, "p": p}
            return op
        t = run(cfg, ops, "random-%d" % k)
        tr.append(t)
    for i in range(0, len(tr), 400):
        job.write("rnd%d" % i, tr[i:i + 400])


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
