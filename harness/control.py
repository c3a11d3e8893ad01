"""Driver for control environments and tasks (spec Control)."""
from common import *
from numpy import array

ONE, MIC = 4096, 1000000
Z = []
_normal = numpy.random.normal


def normal(loc=0.0, scale=1.0, size=None):
    """Recorded draws, in 4096ths."""
    loc = numpy.asarray(loc)
    shape = loc.shape if size is None else size
    z = numpy.array([RNG.randint(-3 * ONE, 3 * ONE) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
    Z.extend(z.reshape(-1).tolist())
    return loc + numpy.asarray(scale) * (z / float(ONE))


DEF = {"env": "", "task": "own", "len": 10, "random": True, "dim": 1, "N": 1000, "half": False, "goal": 0, "max": 999, "easy": False, "again": False,
       "and": False, "shuffled": False, "flip": False, "cutoff": 0, "ops": [], "depth": 0}
STEP = {"err": "", "s": [], "a": [], "z": [], "n": 0, "sens": [], "angles": [], "pos": 0, "rew": 0, "tot": 0, "out": 0, "obs": [], "fin": False, "same": True, "post": [], "val": 0, "want": 0}


def build(c):
    """The object described by the configuration."""
    env, task = c["env"], c["task"]
    if env in ("mcar", "acro", "single"):
        if env == "mcar":
            from pybrain.rl.environments.classic.mountaincar import MountainCar
            t = MountainCar()
            if c["goal"] != 450000:
                t.goalPos = c["goal"] / float(MIC)
        else:
            from pybrain.rl.environments.classic import acrobot as ac
            if env == "single":
                t = ac.SingleArmSwinger()
                std = FX(1.95)
            else:
                t = {FX(1.5): ac.AcrobotTask, FX(-.5): ac.SimpleAcrobot, FX(-1.): ac.VerySimpleAcrobot}.get(c["goal"], ac.AcrobotTask)()
                std = c["goal"] if c["goal"] in (FX(1.5), FX(-.5), FX(-1.)) else None
            if c["goal"] != std:
                t.target = c["goal"] / float(ONE)
            if c["easy"]:
                t.easy_rewards = True
        if c["max"] != (99 if env == "single" else 999):
            t.maxSteps = c["max"]
        if c["again"]:
            t.resetOnSuccess = True
        return None, t
    if env in ("xor", "chain"):
        from pybrain.rl.environments.classic import xor
        t = xor.XORTask() if env == "xor" else xor.XORChainTask()
        t.and_task, t.stochasticity = c["and"], 1 if c["flip"] else 0
        if c["shuffled"]:
            t.randomorder = True
        if c["cutoff"]:
            t.reward_cutoff = c["cutoff"]
        return None, t
    if env == "ship":
        from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment, GoNorthwardTask
        e = ShipSteeringEnvironment(render=False)
        return e, None if task == "none" else GoNorthwardTask(e, maxsteps=c["N"]) if c["N"] != 1000 else GoNorthwardTask(e)
    if env == "simple":
        from pybrain.rl.environments.simple import SimpleEnvironment, MinimizeTask
        e = SimpleEnvironment(c["dim"])
        if c["len"]:
            e.setNoise(c["len"] / float(ONE))
        return e, None if task == "none" else MinimizeTask(e)
    from pybrain.rl.environments import cartpole as cp
    from pybrain.rl.environments.cartpole import balancetask as bt
    if env == "lin":
        e = cp.CartPoleLinEnvironment()
    elif env == "dbl":
        e = cp.DoublePoleEnvironment()
    elif env == "nmdbl":
        e = cp.NonMarkovDoublePoleEnvironment()
    else:
        cls = cp.CartPoleEnvironment if env == "cart" else cp.NonMarkovPoleEnvironment
        e = cls(polelength=c["len"] / 20.) if c["len"] != 10 else cls()
        if not c["random"]:
            e.randomInitialization = False
            e.reset()
    if task == "none":
        return e, None
    cls = {"bal": bt.BalanceTask, "just": bt.JustBalanceTask, "easy": bt.EasyBalanceTask, "disc": bt.DiscreteBalanceTask, "nohelp": bt.DiscreteNoHelpTask,
           "pomdp": bt.DiscretePOMDPTask, "quad": bt.LinearizedBalanceTask, "rbf": bt.DiscreteBalanceTaskRBF, "dblrbf": bt.DiscreteDoubleBalanceTaskRBF}[task]
    t = cls(e, maxsteps=c["N"]) if c["N"] != 1000 else cls(e)
    if c["half"]:
        t.discount = .5
    return t.env, t


class Obj(object):
    def __init__(self, rng, c):
        self.rng, self.c, self.steps = rng, dict(DEF, **c), []
        b = dict(STEP, op="new")
        b["err"], r = guarded(lambda: build(self.c))
        self.env, self.task = r or (None, None)
        self.own = self.c["env"] in ("mcar", "acro", "single")
        if r and self.c["env"] not in ("xor", "chain"):
            b["err"], _ = guarded(lambda: b.update(s=self.state(), val=FX(self.env.p1.sensors[2]) if self.c["env"] in ("dbl", "nmdbl") else 0))
        self.steps.append(b)
        self.err = b["err"]

    def state(self):
        e = self.c["env"]
        if e == "mcar":
            return FXL(self.task.state, MIC)
        if self.own:
            return FXL(self.task.state)
        if e in ("xor", "chain"):
            return []
        if e in ("dbl", "nmdbl"):
            a, b = self.env.p1.sensors, self.env.p2.sensors
            return FXL([a[0], a[1], b[0], b[1], b[2], b[3]])
        if e == "simple":
            return FXL(self.env.state)
        return FXL(self.env.sensors)

    def setstate(self, s):
        e = self.c["env"]
        if self.own:
            self.task.state = [v / float(MIC if e == "mcar" else ONE) for v in s]
            if e == "single":
                self.task.state[0] = numpy.pi
        elif e in ("dbl", "nmdbl"):
            v = [x / float(ONE) for x in s]
            self.env.p1.sensors = (v[0], v[1], v[4], v[5])
            self.env.p2.sensors = (v[2], v[3], v[4], v[5])
            self.env.getSensors()
        else:
            v = [x / float(ONE) for x in s]
            self.env.sensors = array(v) if e == "lin" else tuple(v)

    def look(self, b):
        """Everything that can be asked, in any order; the end of the episode last."""
        if self.task is None:
            b["sens"] = FXL(self.env.getSensors())
            if self.c["env"] != "ship":
                b["angles"], b["pos"] = FXL(self.env.getPoleAngles()), FX(self.env.getCartPosition())
            return
        t = self.task
        mic = self.c["env"] == "mcar"
        qs = {"rew": lambda: FX(t.getReward()), "tot": lambda: FX(t.getTotalReward()), "obs": lambda: FXL(t.getObservation(), MIC if mic else ONE)}
        if not self.own:
            qs["out"] = lambda: I(t.outdim)
        ks = list(qs) * 2
        self.rng.shuffle(ks)
        before = self.state()
        got = {}
        for k in ks:
            v = qs[k]()
            if got.setdefault(k, v) != v:
                b["same"] = False
        if self.state() != before:
            b["same"] = False
        b.update(got)
        b["fin"] = bool(t.isFinished())
        b["post"] = self.state()

    def vec(self, v):
        return array(v) if self.rng.random() < .8 or self.c["env"] == "lin" or self.c["task"] in ("disc", "nohelp", "pomdp", "rbf", "dblrbf") else list(v)

    def do(self, op, **kw):
        b = dict(STEP, op=op, **kw)
        t, c = self.task, self.c
        x = t if t is not None else self.env
        del Z[:]

        def go():
            if op == "reset":
                x.reset()
                b["s"] = self.state()
                if c["env"] in ("dbl", "nmdbl"):
                    b["val"] = FX(self.env.p1.sensors[2])     # both poles are on one cart
                if t is not None:
                    b["tot"] = FX(t.getTotalReward())
                if not (self.own or t is None or c["task"] in ("min", "quad")):
                    self.look(b)
            elif op == "set":
                self.setstate(b["s"])
                self.look(b)
            elif op == "look":
                self.look(b)
            elif op == "max":
                t.setMaxLength(b["n"])
                self.look(b)
            elif op == "act":
                a = b["a"]
                if self.own or c["env"] in ("xor", "chain"):
                    x.performAction(int(a[0]))
                else:
                    x.performAction(self.vec([v / float(ONE) for v in a]))
                b["z"] = list(Z)
                b["s"] = self.state() if c["env"] not in ("simple", "xor", "chain") else []
                if c["env"] in ("xor", "chain"):
                    b["rew"], b["tot"], b["fin"] = FX(t.getReward()), FX(t.getTotalReward()), bool(t.isFinished())
                elif c["env"] == "simple":
                    if t is not None:
                        b["rew"], b["tot"] = FX(t.getReward()), FX(t.getTotalReward())
                else:
                    self.look(b)
            elif op == "read":
                v = t.getObservation() if t is not None else x.getSensors()
                b["z"] = list(Z)
                b["sens"] = FXL(v)
                b["same"] = FXL(x.getObservation() if t is not None else x.getSensors()) == b["sens"] == FXL(self.env.getSensors())
            elif op == "fin":
                b["fin"] = bool(t.isFinished())
            elif op == "observe":
                b["obs"] = IL(t.getObservation())
            elif op == "eval":
                self.evaluate(b)
        b["err"], _ = guarded(go)
        self.steps.append(b)
        self.err = b["err"]
        return b["err"]

    def evaluate(self, b):
        """A controller's fitness is the average of the totals of its episodes."""
        from pybrain.structure.modules.module import Module
        rng, t = self.rng, self.task
        choices = [rng.randint(0, 2) for _ in range(3)]
        own = self.own

        class Fixed(Module):
            def __init__(self):
                Module.__init__(self, 1, 1)

            def reset(self):
                self.n = 0

            def activate(self, obs):
                self.n += 1
                if own:
                    return 2 if numpy.asarray(obs)[1] >= 0 and choices[0] else choices[self.n % 3]
                return array([(choices[self.n % 3] - 1) * .5])
        m = Fixed()
        m.reset()
        t.reset()
        while not t.isFinished():
            t.performAction(m.activate(t.getObservation()))
        b["want"] = FX(t.getTotalReward())
        t.batchSize = rng.choice([1, 2, 3])
        b["val"] = FX(t.f(m))


def pstate(rng, env):
    g = rng.choice([1, 3, 8])

    def ang():
        return rng.choice([rng.randint(-300, 300), rng.randint(-3200, 3200), rng.choice([-1, 1]) * rng.randint(2860, 2875), rng.choice([-1, 1]) * rng.randint(200, 210), rng.randint(-7000, 7000)])

    def vel():
        return rng.randint(-g * ONE, g * ONE)

    def pos():
        return rng.choice([rng.randint(-300, 300), rng.randint(-10500, 10500), rng.choice([-1, 1]) * rng.randint(9825, 9835), rng.choice([-1, 1]) * rng.randint(200, 210), rng.choice([-6145, 6144, 6143])])
    return [ang(), vel(), ang(), vel(), pos(), vel()] if env in ("dbl", "nmdbl") else [ang(), vel(), pos(), vel()]


def some(rng):
    """A configuration with its states and actions."""
    k = rng.randrange(13)
    if k < 6:
        env, task = rng.choice([("cart", "none"), ("nm", "none"), ("dbl", "none"), ("nmdbl", "none"), ("lin", "none"), ("cart", "bal"), ("cart", "just"), ("cart", "easy"), ("cart", "disc"), ("cart", "nohelp"),
                                ("cart", "pomdp"), ("cart", "rbf"), ("nm", "bal"), ("dbl", "bal"), ("nmdbl", "bal"), ("nm", "easy"), ("dbl", "disc"), ("dbl", "just"), ("lin", "quad"), ("lin", "quad"), ("cart", "bal"), ("nmdbl", "easy"), ("lin", "bal")]
                               + ([("dbl", "dblrbf")] if rng.random() < .3 else []))
        c = {"env": env, "task": task, "N": rng.choice([1000, 3, 6, 20]), "half": rng.random() < .25}
        if task == "none":
            c.update(N=1000, half=False)
        if env in ("cart", "nm"):
            c.update(len=rng.choice([10, 10, 20, 4]), random=rng.random() < .7)
        disc = task in ("disc", "nohelp", "pomdp", "rbf", "dblrbf")
        if task == "none":
            act = lambda: [rng.choice([0, rng.randint(-50, 50) * ONE, rng.randint(-ONE, ONE) * 10])]
        elif disc:
            act = lambda: [rng.choice([0, ONE, 2 * ONE])]
        else:
            act = lambda: [rng.choice([0, ONE, -ONE, rng.randint(-ONE, ONE), rng.randint(-300, 300), 2 * ONE])]
        return c, lambda: pstate(rng, env), act
    if k == 6:
        c = {"env": "ship", "task": rng.choice(["none", "north", "north"]), "N": rng.choice([1000, 10, 4])}

        def st():
            g = rng.choice([5, 60, 180])
            return [rng.choice([rng.randint(-g * ONE, g * ONE), rng.choice([-1, 1]) * rng.choice([5 * ONE, 5 * ONE - 1, 180 * ONE, 179 * ONE])]), rng.choice([rng.randint(-6 * ONE, 6 * ONE), rng.randint(-180 * ONE, 180 * ONE)]), rng.randint(-10 * ONE, 40 * ONE)]
        if c["task"] == "none":
            act = lambda: [rng.randint(-2 * ONE, 3 * ONE), rng.randint(-100 * ONE, 100 * ONE)]
        else:
            act = lambda: [rng.randint(-ONE - 500, ONE + 500), rng.randint(-ONE - 500, ONE + 500)]
        return c, st, act
    if k in (7, 8):
        c = {"env": "mcar", "goal": rng.choice([450000, 450000, 300000, -490000]), "max": rng.choice([999, 4, 8]), "again": rng.random() < .3}
        return c, lambda: [rng.choice([rng.randint(-1400000, 500000), rng.randint(-1400000, -1330000), c["goal"] - rng.randint(0, 70000)]), rng.choice([rng.randint(-70000, 70000), 69900, -69900, 0])], lambda: [rng.randint(0, 2)]
    if k in (9, 10):
        env = rng.choice(["acro", "acro", "single"])
        c = {"env": env, "goal": FX(rng.choice([1.5, 1.5, -.5, -1., .3])) if env == "acro" else rng.choice([FX(1.95), FX(1.95), FX(1.2)]), "max": rng.choice([999 if env == "acro" else 99, 4, 8]), "again": rng.random() < .3, "easy": rng.random() < .4}

        def st():
            g = rng.choice([1, 4, 6])
            v = lambda lim: rng.choice([rng.randint(-g * ONE, g * ONE), rng.randint(-lim, lim)]) if rng.random() < .15 else rng.randint(-g * ONE, g * ONE)
            s = [rng.randint(-12867, 12867), rng.randint(-12867, 12867), v(51471), v(115811)]
            if env == "single":
                s[0], s[2] = 12868, 0
            return s
        return c, st, lambda: [rng.randint(0, 2)]
    if k == 11:
        env = rng.choice(["xor", "chain"])
        return {"env": env, "and": rng.random() < .4, "shuffled": env == "xor" and rng.random() < .3, "flip": rng.random() < .2, "cutoff": rng.choice([0, 1, 2, 3]) if env == "chain" else 0}, None, lambda: [rng.randint(0, 1)]
    dim = rng.choice([1, 2, 3])
    return {"env": "simple", "task": rng.choice(["none", "min"]), "N": 15, "dim": dim, "len": rng.choice([0, 0, 400])}, None, lambda: [rng.randint(-4 * ONE, 4 * ONE) for _ in range(dim)]


def history(rng):
    c, st, act = some(rng)
    o = Obj(rng, c)
    c = o.c
    n = rng.randint(4, 14)
    if c["env"] in ("xor", "chain"):
        for _ in range(n):
            if o.err or o.do("observe") or o.do("act", a=good(o, rng) if rng.random() < .6 else act()):
                break
    elif c["env"] == "simple":
        for _ in range(rng.choice([n, 40])):
            if o.err:
                break
            if c["task"] == "min":
                if o.steps[-1].get("fin"):
                    o.do("reset")
                elif not o.do("fin") and not o.steps[-1]["fin"]:
                    o.do("read") or o.do("act", a=act())
            else:
                r = rng.random()
                o.do("reset") if r < .08 else o.do("read") if r < .55 else o.do("act", a=act())
    else:
        for _ in range(n):
            if o.err:
                break
            r = rng.random()
            if r < .22 and not (c["env"] == "lin" and c["task"] == "quad" and len(o.steps) < 2):
                seen = any(b["op"] in ("act",) for b in o.steps)
                if (o.own and not seen) or (c["task"] == "quad" and not seen):
                    o.do("act", a=act())
                else:
                    o.do("set", s=st())
            elif r < .30:
                o.do("reset")
            elif r < .34 and c["task"] not in ("own", "none", "quad", "north"):
                o.do("max", n=rng.choice([2, 5, 30]))
            else:
                o.do("act", a=act())
        if not o.err and rng.random() < .3 and ((o.own and not c["again"] and not c["easy"]) or (c["env"] in ("cart", "nm") and not c["random"] and c["task"] in ("bal", "just", "easy"))):
            if o.own:
                o.task.maxSteps = 40
            o.do("eval")
    return {"name": "%s-%s" % (c["env"], c["task"]), "cfg": c, "steps": o.steps}


def good(o, rng):
    """The action the task wants."""
    x, y = o.steps[-1]["obs"][:2]
    return [int(x and y) if o.c["and"] else int(x != y)]


def run(job):
    out = []
    for k in range(job.args["count"]):
        t = history(job.rng)
        t["name"] += "-%d" % k
        out.append(t)
    job.write("control", out)


def replay(job):
    out = []
    for k, beh in enumerate(job.behaviours):
        c = {q: v for q, v in beh["cfg"].items() if q not in ("ops", "depth")}
        o = Obj(job.rng, c)
        acted = False
        for op in beh["ops"]:
            if o.err:
                break
            if op["op"] == "act":
                if c["env"] in ("xor", "chain"):
                    o.do("observe")
                o.err or o.do("act", a=op["a"])
                acted = True
            elif acted or not (o.own or c["task"] == "quad"):
                o.do("set", s=op["s"])
        out.append({"name": "gen-%s-%s-%d" % (c["env"], c["task"], k), "cfg": o.c, "steps": o.steps})
    job.write("control_gen", out)


def start(mode):
    def go(job):
        global RNG
        RNG = random.Random(job.seed + 5)
        numpy.random.normal = normal
        mode(job)
    return go


main({"random": start(run), "replay": start(replay)})
