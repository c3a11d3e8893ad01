"""Driver for game tasks, tournaments and players (spec Play)."""
from common import *
from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame
from pybrain.rl.environments.twoplayergames.twoplayergame import TwoPlayerGame
from pybrain.rl.environments.twoplayergames.tasks import CaptureGameTask, GomokuTask, PenteTask, RelativeCaptureTask, RelativeGomokuTask
from pybrain.rl.environments.twoplayergames.capturegameplayers import RandomCapturePlayer, KillingPlayer, NonSuicidePlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers import ModuleDecidingPlayer as CaptureModulePlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers import RandomGomokuPlayer, KillingGomokuPlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers import ModuleDecidingPlayer as GomokuModulePlayer
from pybrain.rl.environments.twoplayergames.capturegameplayers.captureplayer import CapturePlayer
from pybrain.rl.environments.twoplayergames.gomokuplayers.gomokuplayer import GomokuPlayer
from pybrain.rl.experiments.tournament import Tournament
from pybrain.rl.agents.agent import Agent
from pybrain.structure.modules.module import Module

CFG = {"game": "capture", "alt": False, "win": 4096, "coef": 0, "minm": 3, "maxm": 9, "opp0": 1, "n": 1, "depth": 0}


def win(env):
    w = env.getWinner()
    return 0 if w is None else 2 if w == env.DRAW else I(w)


def scripted(base, rng, plan):
    """A player whose behaviour is planned: 'go' is a random legal move, 'resign' gives up (capture game only)."""
    class Scripted(base):
        log = None

        def getAction(self):
            if self.log is not None:
                self.log.append((self.color, self.game.movesDone))
            if base is CapturePlayer and plan():
                return [self.color, "resign"]
            ls = self.game.getLegals(self.color)
            return [self.color, rng.choice(ls)]

        def integrateObservation(self, obs=None):
            pass
    return Scripted


def task(rng, k, cfg=None, ops=None):
    c = dict(CFG)
    size = 3
    if cfg:
        c.update(cfg)
    else:
        c["game"] = rng.choice(["capture", "capture", "gomoku", "pente"])
        size = rng.randint(2, 4) if c["game"] == "capture" else 5 if rng.random() < .8 else 6
        c["alt"], c["win"], c["coef"] = rng.random() < .6, rng.choice([4096, 8192, 1024]), rng.choice([0, 2048, 4096])
        c["opp0"] = rng.choice([1, -1])
        c["minm"], c["maxm"] = (3 if c["game"] == "capture" else 9), size * size
    steps = []
    T = {"name": "task-%s-%d" % (c["game"], k), "cfg": c, "steps": steps}
    plan, live = [None], [False]   # nobody gives up while the task is constructed
    P = CapturePlayer if c["game"] == "capture" else GomokuPlayer
    rate = rng.choice([.02, .2])

    def giveup(who):
        def f():
            return live[0] and (plan[0] == who if ops is not None else rng.random() < rate)
        return f
    cls = {"capture": CaptureGameTask, "gomoku": GomokuTask, "pente": PenteTask}[c["game"]]
    args = {"alternateStarting": c["alt"], "winnerReward": c["win"] / 4096., "numMovesCoeff": c["coef"] / 4096.}
    r = rng.random()
    OP = scripted(P, rng, giveup("opponent gives up"))
    if ops is None and r < .3:
        OP = rng.choice([KillingPlayer, None, RandomCapturePlayer] if c["game"] == "capture" else [KillingGomokuPlayer, None, RandomGomokuPlayer])

    def make():
        a = dict(args)
        if c["opp0"] == -1 or rng.random() < .3:
            a["opponentStart"] = c["opp0"] == 1
        o = OP
        if OP is not None and rng.random() < .5:
            o = OP({"capture": lambda: CaptureGame(size), "gomoku": lambda: GomokuGame((size, size)), "pente": lambda: PenteGame((size, size))}[c["game"]]())
        t = cls(size, o, **a) if o is not None else cls(size, **a)
        return t
    err, t = guarded(make)
    if err:
        steps.append({"op": "reset", "err": err})
        return T
    env = t.env
    live[0] = True

    def look(s):
        s["winner"], s["moves"], s["last"] = win(env), I(env.movesDone), I(env.lastplayer or 0)
        order = rng.choice(["frt", "rft", "trf"])
        for x in order:
            if x == "f":
                s["fin"] = bool(t.isFinished())
            elif x == "r":
                s["r"] = FX(t.getReward())
            else:
                s["total"] = FX(t.getTotalReward())
        s["opp"] = I(t.opponent.color)
    over, started = True, False
    todo = ops if ops is not None else [None] * rng.randint(5, 30)
    for o in todo:
        if o is None:
            x = rng.random()
            o = ("reset" if not started or x < .8 else "peek") if over else ("go" if x < .85 else "peek")
            if not started and rng.random() < .0:
                o = "reset"
        op = o if o in ("reset", "peek") else "act"
        s = {"op": op, "err": "", "opp": 0, "moves": 0, "last": 0, "fin": False, "r": 0, "total": 0, "winner": 0}
        plan[0] = o

        def f():
            if op == "reset":
                t.reset()
            elif op == "act":
                c0 = -t.opponent.color
                if c["game"] == "capture" and giveup("giveup")():
                    t.performAction([c0, "resign"])
                else:
                    ls = env.getLegals(c0)
                    if ops is not None:
                        ls = [p for p in ls if not env._suicide(c0, p) and not env._capture(c0, p)] or ls
                    t.performAction([c0, rng.choice(ls)])
            look(s)
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
        started = True
        over = s["winner"] != 0
        if ops is not None and over != (o in ("giveup", "opponent gives up")) and op == "act":
            break   # the small board ended the planned game early
    if ops is None and not steps[-1]["err"]:
        # a series of evaluated games
        s = {"op": "series", "err": "", "games": [], "count": rng.randint(1, 4), "r": 0, "opp": 0}
        rec = []
        reset0 = env.reset

        def reset():
            if rec:
                rec[-1].update(winner=win(env), moves=I(env.movesDone))
            rec.append({"ac": 0, "oc": I(t.opponent.color), "winner": 0, "moves": 0, "first": 0})
            reset0()

        def f():
            env.reset = reset
            try:
                a = scripted(P, rng, giveup("giveup"))(env)
                a.log = []
                og, oa = t.opponent.getAction, a.getAction

                def watch(fn, learner):
                    def g():
                        act = fn()
                        rec[-1]["first"] = rec[-1]["first"] or I(act[0])
                        if learner:
                            rec[-1]["ac"] = I(act[0])
                        return act
                    return g
                t.opponent.getAction, a.getAction = watch(og, False), watch(oa, True)
                t.averageOverGames = s["count"]
                s["r"] = FX(t(a) if rng.random() < .5 else t.f(a))
                rec[-1].update(winner=win(env), moves=I(env.movesDone))
            finally:
                env.reset = reset0
                t.opponent.getAction = og
            for g in rec:
                if g["ac"] == 0:
                    g["ac"] = -g["oc"]   # the opponent ended the game before the learner could move
            s["games"] = rec
            s["opp"] = I(t.opponent.color)
        s["err"], _ = guarded(f)
        steps.append(s)
    return T


def relative(rng, k):
    c = dict(CFG)
    c["game"] = rng.choice(["capture", "gomoku"])
    size = rng.randint(3, 5) if c["game"] == "capture" else 5
    c["coef"], c["minm"], c["maxm"] = rng.choice([0, 2048]), (3 if c["game"] == "capture" else 9), size * size
    s = {"op": "relative", "err": "", "games": [], "r": 0}
    T = {"name": "relative-%s-%d" % (c["game"], k), "cfg": c, "steps": [s]}
    rate = rng.choice([.1, .3])

    def f():
        half = c["game"] == "capture" and rng.random() < .6
        a = {"numMovesCoeff": c["coef"] / 4096., "maxGames": rng.randint(1, 6)}
        P = CapturePlayer if c["game"] == "capture" else GomokuPlayer
        if c["game"] == "capture":
            a["presetGamesProportion"] = .5 if half else 0
        t = (RelativeCaptureTask if c["game"] == "capture" else RelativeGomokuTask)(size, **a)
        p1, p2 = [scripted(P, rng, lambda: rng.random() < rate)(t.env) for _ in range(2)]
        rec = []
        reset0 = t.env.reset

        def reset():
            if rec:
                rec[-1].update(winner=win(t.env), moves=I(t.env.movesDone))
            rec.append({"winner": 0, "moves": 0, "first": 0, "preset": False, "w": 1})
            reset0()

        def watch(fn):
            def g():
                act = fn()
                if not rec[-1]["first"]:
                    rec[-1]["first"], rec[-1]["preset"] = I(act[0]), t.env.movesDone == 1
                return act
            return g
        t.env.reset = reset
        p1.getAction, p2.getAction = watch(p1.getAction), watch(p2.getAction)
        s["r"] = FX(t(p1, p2))
        rec[-1].update(winner=win(t.env), moves=I(t.env.movesDone))
        if half:
            # the greedy game counts for all games without preset
            npos = len([1 for x in range(1, (size + 1) // 2) for y in range(x, (size + 1) // 2)])
            for g in rec:
                if not g["preset"]:
                    g["w"] = npos
        s["games"] = rec
    s["err"], _ = guarded(f)
    return T


class Toy(TwoPlayerGame):
    """a game with planned length and result, of which the moves are 1, 2, ... (0 is illegal)"""

    def __init__(self, rng, start):
        self.rng, self.startcolor, self.log = rng, start, []
        self.reset()

    def reset(self):
        TwoPlayerGame.reset(self)
        self.todo, self.result, self.moves, self.ok = self.rng.randint(1, 4), self.rng.choice([1, -1, self.DRAW]), [], True

    def isLegal(self, player, action):
        return action > 0

    def doMove(self, player, action):
        self.ok = self.ok and self.isLegal(player, action)
        self.moves.append(player)
        self.todo -= 1
        if self.todo == 0:
            self.winner = self.result


class Toymate(Agent):
    def __init__(self, rng, bad):
        self.rng, self.bad, self.color, self.hist = rng, bad, 0, []

    def newEpisode(self):
        pass

    def getAction(self):
        return [self.color, 0 if self.bad and self.rng.random() < .4 else 1]


def tournament(rng, k):
    c = dict(CFG)
    c["n"] = rng.randint(2, 4)
    steps = []
    T = {"name": "tournament-%d" % k, "cfg": c, "steps": steps}
    start = rng.choice([1, -1])
    env = Toy(rng, start)
    legality = rng.random() < .4
    agents = [Toymate(rng, legality) for _ in range(c["n"])]
    games = []
    reset0 = env.reset

    def close():
        if games and not games[-1]["movers"]:
            g = games[-1]
            col = {agents[g["p1"] - 1].color: g["p1"], agents[g["p2"] - 1].color: g["p2"]} if g["p1"] and g["p2"] else {}
            g["c1"], g["c2"] = (I(agents[g["p1"] - 1].color), I(agents[g["p2"] - 1].color)) if g["p1"] and g["p2"] else (0, 0)
            g["movers"] = list(g["who"])
            g["winner"], g["legal"] = win(env), env.ok
    box = {}

    def make():
        tour = Tournament(env, agents)
        if legality:
            tour.forcedLegality = True
        one = tour._oneGame

        def watched(p1, p2):
            g = {"p1": agents.index(p1) + 1, "p2": agents.index(p2) + 1, "movers": [], "who": []}
            games.append(g)
            box["who"] = g["who"]
            one(p1, p2)
            close()
        tour._oneGame = watched
        return tour
    err, tour = guarded(make)
    if err:
        steps.append({"op": "clear", "err": err})
        return T
    perform = env.performAction

    def act(a):
        who = [i + 1 for i, x in enumerate(agents) if x is box.get("last")]
        box["who"].extend(who)
        perform(a)
    env.performAction = act
    for a in agents:
        def wrap(a=a, fn=a.getAction):
            def g():
                box["last"] = a
                return fn()
            return g
        a.getAction = wrap()
    played = False
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(["organize", "organize", "elo", "clear"])
        if op == "elo" and not played:
            op = "organize"
        s = {"op": op, "err": ""}

        def f():
            if op == "organize":
                del games[:]
                s["rounds"], s["start"] = rng.randint(1, 3), start
                res = tour.organize(s["rounds"]) if s["rounds"] > 1 or rng.random() < .5 else tour.organize()
                s["games"] = [{x: g[x] for x in ("p1", "p2", "c1", "c2", "movers", "winner", "legal")} for g in games]
                num = {a: i + 1 for i, a in enumerate(agents)}
                s["res"] = [{"p1": num[x], "p2": num[y], "out": [num[r] if r in num else 0 if r == env.DRAW else 99 for r in out]} for (x, y), out in res.items()]
                s["total"], s["rsum"] = I(tour.numGames), I(tour.rounds)
                str(tour)
            elif op == "clear":
                tour.reset()
            else:
                if rng.random() < .5:
                    for a in agents:
                        if rng.random() < .6:
                            a.elo = float(rng.randint(1300, 1700))
                st, kk = rng.choice([(1500, 32), (1500, 32), (1600, 16)])
                s["k"] = kk
                s["before"] = [FX(a.__dict__.get("elo", st), 256) for a in agents]
                e = tour.eloScore() if (st, kk) == (1500, 32) and rng.random() < .5 else tour.eloScore(st, kk)
                s["after"], s["kept"] = [FX(e[a], 256) for a in agents], [FX(a.elo, 256) for a in agents]
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
        played = op != "clear"
    return T


class Seer(Module):
    def __init__(self, n, rng):
        Module.__init__(self, 2 * n, n)
        self.rng, self.seen, self.out = rng, [], []

    def _forwardImplementation(self, inbuf, outbuf):
        self.seen = IL(inbuf)
        self.out = [self.rng.randint(0, 8) for _ in range(self.outdim)]
        outbuf[:] = self.out


def player(rng, k):
    game = rng.choice(["capture", "capture", "gomoku", "pente"])
    kind = rng.choice(["random", "killing", "nonsuicide", "module", "killing", "module"])
    if game != "capture" and kind == "nonsuicide":
        kind = "killing"
    s = {"op": "player", "err": "", "game": game, "kind": kind, "board": [], "suicide": True, "pairs": [0, 0], "c": rng.choice([1, -1]), "mc": 0, "p": -1, "inp": [], "out": [], "greedy": False, "r": 0, "cc": 0}
    T = {"name": "player-%s-%s-%d" % (game, kind, k), "cfg": dict(CFG), "steps": [s]}

    def f():
        if game == "capture":
            n = rng.randint(2, 5)
            s["suicide"] = rng.random() < .6
            env = CaptureGame(n, s["suicide"])
            s["r"] = s["cc"] = n
            env.randomBoard(rng.randint(0, n * n))
        else:
            s["r"], s["cc"] = rng.choice([(5, 5), (5, 6), (7, 5), (5, 8)])
            env = (GomokuGame if game == "gomoku" else PenteGame)((s["r"], s["cc"]))
            dense = rng.random() < .5
            for i in range(rng.randint(0, 18)):
                col = rng.choice([1, -1])
                ls = [p for p in env.getLegals(col) if p not in env.getKilling(col)]
                if dense:
                    near = [p for p in ls if any(env.b.get((p[0] + a, p[1] + b)) == col for a in (-1, 0, 1) for b in (-1, 0, 1))]
                    ls = near or ls
                if len(ls) < 2:
                    break
                env.doMove(col, rng.choice(ls))
            if game == "pente":
                if rng.random() < .4:
                    env.pairsTaken = {1: rng.randint(0, 4), -1: rng.randint(0, 4)}
                s["pairs"] = [I(env.pairsTaken[1]), I(env.pairsTaken[-1])]
        s["board"] = [I(env.b[p]) for p in env._iterPos()]
        legal = [p for p in env._iterPos() if env.isLegal(s["c"], p)]
        if not legal or env.gameOver():
            s["op"] = "clear"
            return
        if kind == "module":
            m = Seer(len(s["board"]), rng)
            s["greedy"] = rng.random() < .7
            kw = {"greedySelection": True} if s["greedy"] else {"temperature": .5}
            p = (CaptureModulePlayer if game == "capture" else GomokuModulePlayer)(m, env, s["c"], **kw)
        else:
            p = {"random": RandomCapturePlayer, "killing": KillingPlayer, "nonsuicide": NonSuicidePlayer}[kind](env, s["c"]) if game == "capture" else \
                {"random": RandomGomokuPlayer, "killing": KillingGomokuPlayer}[kind](env, color=s["c"])
        col, pos = p.getAction()
        s["mc"], s["p"] = I(col), I(pos[0]) * s["cc"] + I(pos[1])
        if not (0 <= pos[0] < s["r"] and 0 <= pos[1] < s["cc"]):
            s["p"] = -1
        if kind == "module":
            s["inp"], s["out"] = m.seen, m.out
    s["err"], _ = guarded(f)
    return T


def run(job):
    rng, out = job.rng, []
    for k in range(job.args["count"]):
        r = rng.random()
        out.append(task(rng, k) if r < .4 else relative(rng, k) if r < .55 else tournament(rng, k) if r < .7 else player(rng, k))
    job.write("play", out)


def replay(job):
    job.write("play_gen", [task(job.rng, k, b["cfg"], b["ops"]) for k, b in enumerate(job.behaviours)])


main({"random": run, "replay": replay})
