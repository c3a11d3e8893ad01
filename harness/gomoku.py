"""Driver for Gomoku and Pente (spec Gomoku)."""
from common import *
from pybrain.rl.environments.twoplayergames import GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame


def code(v):
    if isinstance(v, str):
        return 2 if v == 'x' else 9
    return v if v in (0, 1, -1) else 9


def observe(g, cfg, ret):
    cells = [(i, j) for i in range(cfg["r"]) for j in range(cfg["c"])]
    ix = lambda p: I(p[0]) * cfg["c"] + I(p[1])
    w = g.getWinner()
    o = {"ret": bool(ret), "winner": 0 if w is None else 2 if w == g.DRAW else w if w in (1, -1) else 9,
         "over": bool(g.gameOver()), "board": [code(g.b[p]) for p in cells], "sensors": [code(v) for v in g.getSensors()],
         "arr": IL(list(g.getBoardArray())), "legals": [[ix(p) for p in g.getLegals(c)] for c in (1, -1)],
         "kill": [[ix(p) for p in g.getKilling(c)] for c in (1, -1)],
         "islegal": [[bool(g.isLegal(c, p)) for p in cells] for c in (1, -1)], "last": g.lastplayer or 0, "pairs": [0, 0]}
    if cfg["pente"]:
        o["pairs"] = [I(g.pairsTaken[1]), I(g.pairsTaken[-1])]
    str(g)
    return o


def run(cfg, ops, name):
    cls = PenteGame if cfg["pente"] else GomokuGame
    g = cls((cfg["r"], cfg["c"]))
    steps, k = [], 0
    it = None if callable(ops) else iter(ops)
    while True:
        op = next(it, None) if it is not None else ops(g, k)
        k += 1
        if op is None:
            break
        op = dict(op)
        op.setdefault("via", "move")

        def go():
            if op["op"] == "reset":
                g.reset()
                return True
            pos = (op["p"] // cfg["c"], op["p"] % cfg["c"])
            if op["via"] == "perform":
                legal = g.b.get(pos) == 0
                g.performAction((op["c"], pos))
                return legal
            return g.doMove(op["c"], pos)
        err, ret = guarded(go)
        obs = {}
        if not err:
            err, obs = guarded(lambda: observe(g, cfg, ret), {})
        op.update(err=err, obs=obs)
        steps.append(op)
        if g.gameOver() and it is not None:
            break
        if err and 0 <= op.get("p", 0) < cfg["r"] * cfg["c"]:
            break
    return {"name": name, "cfg": cfg, "steps": steps}


def replay(job):
    tr = [run(b["cfg"], b["ops"], "tlc-%d" % k) for k, b in enumerate(job.behaviours)]
    for i in range(0, len(tr), 1500):
        job.write("replay%d" % i, tr[i:i + 1500])


def rnd(job):
    rng = job.rng
    tr = []
    for k in range(job.args["count"]):
        r, c = rng.choice([(5, 5), (5, 5), (5, 6), (6, 5), (7, 5), (7, 7), (8, 6), (6, 9)])
        pente = k % 2 == 1
        cfg = {"r": r, "c": c, "pente": pente, "line": []}
        style = rng.choice(["full", "cluster", "capture", "row", "illegal"])
        st = {"c": 1, "resets": 0}
        dirs = [(0, 1), (1, 0), (1, 1), (1, -1), (0, -1), (-1, 0), (-1, -1), (-1, 1)]
        at = lambda g, x, y: g.b.get((x, y), 9)
        avoid = rng.random() < 0.9     # play long games by avoiding wins for a while
        horizon = rng.randrange(5, r * c + 10)

        def five(g, col, p):
            x, y = p // c, p % c
            for d in dirs[:4]:
                n = 1
                for sgn in (1, -1):
                    j = 1
                    while at(g, x + sgn * j * d[0], y + sgn * j * d[1]) == col:
                        n += 1
                        j += 1
                if n >= 5:
                    return True
            return False

        def ops(g, i):
            if i > 3 * r * c:
                return None
            if g.gameOver():
                st["resets"] += 1
                if st["resets"] > 1:
                    return None
                st["c"] = 1
                return {"op": "reset"}
            col = st["c"]
            free = [p for p in range(r * c) if g.b[(p // c, p % c)] == 0]
            occ = [p for p in range(r * c) if g.b[(p // c, p % c)] != 0]
            if not free:
                return None
            via = rng.choice(["move", "perform"])
            if style == "illegal" and rng.random() < 0.2 and occ:
                return {"op": "move", "c": col, "p": rng.choice(occ), "via": via}
            if style == "illegal" and rng.random() < 0.03:
                return {"op": "move", "c": col, "p": r * c + rng.randrange(c), "via": "move"}
            cand = free
            if style == "capture" and rng.random() < 0.7:
                cap, mk = [], []
                for p in free:
                    x, y = p // c, p % c
                    for d in dirs:
                        if at(g, x + d[0], y + d[1]) == -col and at(g, x + 2 * d[0], y + 2 * d[1]) == -col and at(g, x + 3 * d[0], y + 3 * d[1]) == col:
                            cap.append(p)
                    for d in dirs[:4]:  # set up pairs for the opponent
                        if at(g, x + d[0], y + d[1]) == col and at(g, x + 2 * d[0], y + 2 * d[1]) in (0, -col) and at(g, x - d[0], y - d[1]) in (0, -col):
                            mk.append(p)
                cand = cap or mk or free
            elif style == "row" and rng.random() < 0.8 and i > 0:
                mine = [p for p in free if any(at(g, p // c + d[0], p % c + d[1]) == col for d in dirs)]
                cand = mine or free
            elif style == "cluster" and rng.random() < 0.6 and i > 0:
                near = [p for p in free if any(at(g, p // c + d[0], p % c + d[1]) in (1, -1) for d in dirs)]
                cand = near or free
            if avoid and i < horizon:
                cand = [p for p in cand if not five(g, col, p)] or [p for p in free if not five(g, col, p)] or cand
            if rng.random() < 0.85:
                st["c"] = -col
            return {"op": "move", "c": col, "p": rng.choice(cand), "via": via}
        tr.append(run(cfg, ops, "random-%d" % k))
    for i in range(0, len(tr), 300):
        job.write("rnd%d" % i, tr[i:i + 300])


if __name__ == "__main__":
    main({"replay": replay, "random": rnd})
