"""Driver for mazes and maze tasks (spec Maze)."""
from common import *
from pybrain.rl.environments.mazes import Maze, PolarMaze
from pybrain.rl.environments.mazes.tasks import (MazeTask, TrivialMaze, CheeseMaze, TMaze, FourByThreeMaze, EightyNineStateMaze, ShuttleDocking,
                                                 MDPMazeTask, TigerTask)

BASE = {"kind": "env", "tab": [], "goal": [0, 0], "init": [], "len": 0, "fin": 4096, "bang": 0, "def": 0, "max": -1, "gamma": 0, "noiseA": 0, "noiseO": 0}


def table(rng):
    h, w = rng.randint(1, 4), rng.randint(2, 5)
    d = rng.choice([0, .2, .4])
    t = [[1] * (w + 2)] + [[1] + [int(rng.random() < d) for _ in range(w)] + [1] for _ in range(h)] + [[1] * (w + 2)]
    free = [(i, j) for i in range(h + 2) for j in range(w + 2) if not t[i][j]]
    while len(free) < 2:
        i, j = rng.randint(1, h), rng.randint(1, w)
        t[i][j] = 0
        free = [(i, j) for i in range(h + 2) for j in range(w + 2) if not t[i][j]]
    return t, free


def trace(rng, k, cfg=None, ops=None):
    c = dict(BASE)
    if cfg:
        c.update(cfg)
    else:
        c["kind"] = rng.choice(["env", "env", "polar", "polar", "maze", "maze", "polartask", "polartask", "mdp", "trivial", "cheese", "cheese", "tmaze", "tmaze", "four", "four", "shuttle",
                                "shuttle", "tiger", "tiger", "e89"])
    kind = c["kind"]
    steps = []
    T = {"name": "%s-%d" % (kind, k), "cfg": c, "steps": steps}
    args = {}
    if cfg is None:
        c["noiseA"], c["noiseO"] = int(rng.random() < .15), int(rng.random() < .15)
        if kind in ("maze", "polartask", "trivial", "cheese", "tmaze", "four", "shuttle", "tiger", "e89"):
            c["gamma"] = rng.choice([0, 8, 12, 16])
            c["max"] = rng.choice([-1, -1, 1, 3, 6])
            if kind in ("tmaze", "cheese", "four", "shuttle"):
                c["noiseO"] = 0
            if kind == "shuttle":
                c["noiseA"] = 0
        if kind in ("env", "polar", "maze", "polartask", "mdp"):
            c["tab"], free = table(rng)
            c["goal"] = list(rng.choice(free))
            if rng.random() < .5:
                c["init"] = [list(x) for x in rng.sample(free, rng.randint(1, min(3, len(free))))]
            if kind == "mdp":
                c["noiseA"] = 0
        if kind in ("maze", "polartask"):
            c["fin"], c["bang"], c["def"] = rng.choice([4096, 8192, -4096]), rng.choice([0, -2048]), rng.choice([0, -256, 512])
    if kind not in ("env", "polar", "mdp"):
        args["discount"] = c["gamma"] / 16. if c["gamma"] else None
        if c["max"] >= 0:
            args["maxSteps"] = c["max"]
    goal = tuple(c["goal"])
    env = task = None

    def make():
        e = t = None
        tab = numpy.array(c["tab"])
        if rng.random() < .5:
            tab = tab.astype(bool)
        init = [tuple(x) for x in c["init"]] or None
        if kind in ("env", "polar", "mdp"):
            kw = {"initPos": init} if init or rng.random() < .5 else {}
            if c["noiseA"]:
                kw["stochAction"] = 1.
            if c["noiseO"]:
                kw["stochObs"] = 1.
            e = (PolarMaze if kind == "polar" else Maze)(tab, goal, **kw)
            t = MDPMazeTask(e) if kind == "mdp" else None
            return e, t
        if kind == "tiger":
            args["stochObs"] = 1. if c["noiseO"] else 0.
            return None, TigerTask(**args)
        args["stochAction"] = 1. if c["noiseA"] else 0.
        if kind not in ("tmaze", "cheese", "four", "shuttle"):
            args["stochObs"] = 1. if c["noiseO"] else 0.
        if kind in ("maze", "polartask"):
            args.update(topology=tab, goal=goal, initPos=init, finalReward=c["fin"] / 4096., bangPenalty=c["bang"] / 4096., defaultPenalty=c["def"] / 4096.)
            if kind == "polartask":
                args["mazeclass"] = PolarMaze
            t = MazeTask(**args)
        elif kind == "tmaze":
            c["len"] = args["length"] = rng.randint(1, 5)
            t = TMaze(**args)
        else:
            t = {"trivial": TrivialMaze, "cheese": CheeseMaze, "four": FourByThreeMaze, "shuttle": ShuttleDocking, "e89": EightyNineStateMaze}[kind](**args)
        e = t.env
        if kind == "four":
            e.stochAction = 0.
        if kind not in ("maze", "polartask"):
            # the maps of the named tasks, as drawn in their documentation
            c.update(MAPS(kind, c["len"]))
        return e, t
    err, r = guarded(make)
    if err:
        steps.append({"op": "reset", "err": err})
        return T
    env, task = r
    nact = {"shuttle": 3, "tiger": 3, "polar": 5, "polartask": 5, "e89": 5}.get(kind, 4)
    c["kind"] = {"trivial": "maze", "e89": "polartask"}.get(kind, kind)
    kind0, kind = kind, c["kind"]

    def look(s):
        if kind == "tiger":
            s["obs"], s["left"], s["cum"], s["fin"] = IL(task.getObservation()), bool(task.tigerLeft), FX(task.getTotalReward()), bool(task.isFinished())
            return
        s["pos"], s["dir"], s["bang"], s["goal"] = IL(env.perseus), I(getattr(env, "perseusDir", 0)), bool(env.bang), IL(env.goal)
        s["obs"] = IL((env if kind in ("env", "polar") else task).getObservation() if kind not in ("env", "polar") else env.getSensors())
        if kind not in ("env", "polar", "mdp"):
            s["cum"], s["fin"] = FX(task.getTotalReward()), bool(task.isFinished())
    fresh, over = True, False
    for i in range(len(ops) if ops is not None else rng.randint(5, 30)):
        if ops is not None:
            reset, a = ops[i][0] == "at", ops[i][1][0]
        else:
            reset, a = fresh or (over and (kind == "tiger" or rng.random() < .8)) or rng.random() < .05, rng.randrange(nact)
        s = {"op": "reset" if reset else "act", "err": "", "a": a, "pos": [0, 0], "dir": 0, "bang": False, "goal": [0, 0], "obs": [], "cum": 0, "fin": False, "rew": 0, "rew2": 0, "left": False}
        if kind in ("tiger", "mdp"):
            s["op"] = {"tiger": "tiger", "mdp": "mdp"}[kind] if not reset else "tigerreset" if kind == "tiger" else "reset"

        def f():
            if reset:
                (task if task is not None and kind != "mdp" else env).reset()
                if ops is not None:
                    env.perseus = tuple(ops[i][1])
                    if kind == "polartask":
                        env.perseusDir = ops[i][2]
            elif kind in ("env", "polar"):
                env.performAction(a)
            elif kind == "mdp":
                task.performAction(numpy.array([float(a)]))
                s["rew"] = FX(task.getReward())
            else:
                if rng.random() < .5 or kind in ("shuttle", "tiger", "four"):
                    task.performAction(a)
                else:
                    x = numpy.zeros(nact)
                    x[a] = rng.choice([1., 2.])
                    task.performAction(x)
                s["rew"], s["rew2"] = FX(task.getReward()), FX(task.getReward())
            look(s)
        s["err"], _ = guarded(f)
        steps.append(s)
        if s["err"]:
            break
        fresh, over = False, s["fin"]
    return T


def draw(text):
    rows = [r.strip() for r in text.strip().split("\n")]
    return [[1 if x == "#" else 0 for x in r] for r in reversed(rows)]


def MAPS(kind, n):
    d = {"trivial": dict(tab=draw("""#####
                                     #   #
                                     #####"""), goal=[1, 3], init=[[1, 1]]),
         "cheese": dict(tab=draw("""#######
                                    #     #
                                    # # # #
                                    # # # #
                                    #######"""), goal=[1, 3], init=[]),
         "four": dict(tab=draw("""######
                                  #    #
                                  # #  #
                                  #    #
                                  ######"""), goal=[3, 4], init=[[1, 1], [1, 2], [1, 3], [2, 1], [3, 1], [3, 2], [2, 3], [3, 3], [1, 4]], bang=-164, **{"def": -164}),
         "shuttle": dict(tab=draw("""#######
                                     #     #
                                     #######"""), goal=[1, 5], init=[[1, 1]], fin=40960, bang=-12288),
         "e89": dict(tab=draw("""#########
                                 ##     ##
                                 #  # #  #
                                 ## # # ##
                                 #  # #  #
                                 ##     ##
                                 #########"""), goal=[2, 7], init=[]),
         "tmaze": dict(tab=draw("\n".join(["#" * (n + 3), "#" * (n + 1) + " #", "#" + " " * (n + 1) + "#", "#" * (n + 1) + " #", "#" * (n + 3)])),
                       goal=[3, n + 1], init=[[2, 1]], fin=16384, bang=-410)}
    return d[kind]


def run(job):
    job.write("maze", [trace(job.rng, k) for k in range(job.args["count"])])


def replay(job):
    job.write("maze_gen", [trace(job.rng, k, b["cfg"], b["ops"]) for k, b in enumerate(job.behaviours)])


main({"random": run, "replay": replay})
