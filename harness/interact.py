"""Driver for agents, tasks and experiments (spec Interact)."""
from common import *
from pybrain.rl.agents import LearningAgent
from pybrain.rl.agents.logging import LoggingAgent
from pybrain.rl.environments.environment import Environment
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.environments.task import Task
from pybrain.rl.experiments import Experiment, EpisodicExperiment, ContinuousExperiment
from pybrain.rl.experiments.queued import QueuedExperiment
from pybrain.rl.learners.valuebased.valuebased import ValueBasedLearner
from pybrain.rl.learners.learner import EpisodicLearner, ExploringLearner, DataSetLearner
from pybrain.structure.modules.module import Module

LOG = []


def ev(e, v=(), r=(), h=()):
    LOG.append({"e": e, "v": FXL(v), "r": list(r), "h": h})


def hist(ds):
    """the episodes of a history, as [o, a, r] steps"""
    n = ds.getNumSequences()
    out = []
    for k in range(n):
        f = ds.getSequence(k)
        out.append([{"o": FXL(o), "a": FXL(a), "r": FX(r[0])} for o, a, r in zip(f[0], f[1], f[2])])
    return out


class Env(Environment):
    def __init__(self, rng, outdim, indim, wide):
        self.rng, self.outdim, self.indim, self.wide = rng, outdim, indim, wide
        self.t = 0

    def getSensors(self):
        v = numpy.array([self.rng.randint(-self.wide, self.wide) / 64. for _ in range(self.outdim)])
        ev("sense", v)
        return v

    def performAction(self, a):
        self.t += 1
        self.last = FXL(a)

    def reset(self):
        self.t = 0
        ev("reset")


class ScriptTask(object):
    """rewards are drawn once per step; the episode ends after the scripted number of steps"""
    ep = -1
    pending = None

    def script(self, rng, lens):
        self.rng, self.lens, self.rew, self.all = rng, lens, 0., []

    def draw(self):
        self.rew = self.rng.randint(-64, 64) / 8.

    def isFinished(self):
        return self.env.t >= self.lens[self.ep]


class ETask(ScriptTask, EpisodicTask):
    def __init__(self, env):
        EpisodicTask.__init__(self, env)

    def reset(self):
        self.ep += 1
        self.all.append([])
        EpisodicTask.reset(self)

    def performAction(self, a):
        self.draw()
        self.all[-1].append(FX(self.rew))
        EpisodicTask.performAction(self, a)
        ev("perform", numpy.array(self.env.last) / 4096., [FX(self.rew)])

    def getReward(self):
        return self.rew


class CTask(ScriptTask, Task):
    def __init__(self, env):
        Task.__init__(self, env)

    def performAction(self, a):
        self.draw()
        Task.performAction(self, a)
        ev("perform", numpy.array(self.env.last) / 4096., [FX(self.rew)])

    def getReward(self):
        return self.rew


class Act(Module):
    def __init__(self, indim, outdim, rng):
        Module.__init__(self, indim, outdim)
        self.rng, self.wasreset, self.fresh = rng, False, True

    def reset(self):
        self.wasreset = True
        Module.reset(self)

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = [self.rng.randint(-96, 96) / 64. for _ in range(len(outbuf))]


class Learner(ExploringLearner, DataSetLearner):
    n = 0

    def learn(self):
        self.n += 1


def spy(cls):
    class Spy(cls):
        def integrateObservation(self, o):
            ev("integrate", o)
            return cls.integrateObservation(self, o)

        def getAction(self):
            a = cls.getAction(self)
            ev("get", a)
            return a

        def giveReward(self, r):
            ev("give", [], [])
            LOG[-1]["v"] = [FX(r)]
            return cls.giveReward(self, r)

        def newEpisode(self):
            ev("newep")
            return cls.newEpisode(self)

        def reset(self):
            ev("clear")
            return cls.reset(self)

        def learn(self, *a, **kw):
            before = self.learner.n
            h = hist(self.history)
            r = cls.learn(self, *a, **kw)
            LOG.append({"e": "learn", "v": [self.learner.n - before], "r": [], "h": h})
            return r
    return Spy


SpyLearning = spy(LearningAgent)
BASE = {"logging": True, "bound": 0, "sl": [], "al": [], "clip": True, "disc": 0, "lens": []}


class PlainAgent(LoggingAgent):
    nxt = None

    def getAction(self):
        LoggingAgent.getAction(self)
        self.lastaction = self.nxt
        return self.lastaction


def agent_steps(rng, k, ops=None, cfg=None):
    """the protocol of the agent itself"""
    kind = rng.choice(["plain", "learning"])
    od, ad = (1, 1) if ops is not None else (rng.randint(1, 3), rng.randint(1, 2))
    c = dict(BASE)
    c["logging"] = cfg["logging"] if cfg else rng.random() < .85
    steps = []
    T = {"name": "agent-%s-%d" % (kind, k), "cfg": c, "steps": steps}
    box = {}

    class M(Module):
        def _forwardImplementation(self, inbuf, outbuf):
            outbuf[:] = box["a"]
    if kind == "plain":
        ag = PlainAgent(od, ad)
    else:
        ln = Learner() if rng.random() < .6 else None
        ag = LearningAgent(M(od, ad), ln)
        if ln is not None:
            ln.n = 0
    ag.logging = c["logging"]
    n = len(ops) if ops is not None else rng.randint(3, 14)
    phase = 0
    for i in range(n):
        if ops is not None:
            op, v = ops[i]["op"], ops[i]["v"]
        else:
            r = rng.random()
            nxt = ["observe", "act", "reward", "observe"][phase]
            op = nxt if r < 0.75 else rng.choice(["observe", "act", "reward", "episode", "reset"] + ([] if kind == "plain" else ["learn"]))
            if op == "episode" and phase in (1, 2):
                op = nxt
            v = {"observe": lambda: [rng.randint(-64, 64) * 64 for _ in range(od)], "act": lambda: [rng.randint(-64, 64) * 64 for _ in range(ad)],
                 "reward": lambda: [rng.randint(-64, 64) * 64]}.get(op, lambda: [0])()
        s = {"op": op, "v": v, "err": "", "h": [], "n": 0, "want": 0}

        def f():
            x = numpy.array(v) / 4096.
            if op == "observe":
                ag.integrateObservation(x)
            elif op == "act":
                box["a"] = x
                ag.nxt = x
                got = ag.getAction()
                s["v"] = FXL(got)
            elif op == "reward":
                ag.giveReward(float(x[0]) if rng.random() < .7 else x[0])
            elif op == "episode":
                ag.newEpisode()
            elif op == "reset":
                ag.reset()
            elif op == "learn":
                if ag.learner is None:
                    ag.learn()
                else:
                    b = ag.learner.n
                    s["want"] = rng.choice([1, 1, 2, 5])
                    if s["want"] == 1:
                        ag.learn()
                    elif rng.random() < .7:
                        ag.learn(s["want"])
                    else:
                        ag.learning = False
                        ag.learn(s["want"])
                        ag.learning = True
                        s["want"] = 0
                    s["n"] = ag.learner.n - b
        s["err"], _ = guarded(f)
        e2, s["h"] = guarded(lambda: hist(ag.history), [])
        s["err"] = s["err"] or e2
        if not s["err"]:
            phase = {"observe": 1, "act": 2, "reward": 0, "reset": 0}.get(op, phase)
        steps.append(s)
    return T


def limits(rng, d):
    if rng.random() < .5:
        return []
    out = []
    for _ in range(d):
        if rng.random() < .2:
            out.append([])
        else:
            lo = rng.randint(-128, 64)
            out.append([lo, lo + rng.choice([32, 64, 128, 256])])
    return out


def pl(l):
    return [None if not x else (x[0] / 64., x[1] / 64.) for x in l] if l else None


def experiment(rng, k):
    kind = rng.choice(["inter", "cont", "eps", "eps", "queue", "fit"])
    c = dict(BASE)
    od, ad = rng.randint(1, 3), rng.randint(1, 2)
    c["logging"] = kind in ("queue", "cont") or rng.random() < .85
    c["sl"], c["al"], c["clip"] = limits(rng, od), limits(rng, ad), rng.random() < .7
    c["disc"] = rng.choice([0, 0, 8, 12, 16]) if kind in ("eps", "fit") else 0
    c["lens"] = [rng.randint(1, 6) for _ in range(40)]
    steps = []
    T = {"name": "experiment-%s-%d" % (kind, k), "cfg": c, "steps": steps}
    box = {}

    def build():
        env = Env(rng, od, ad, 160)
        task = (CTask if kind in ("inter", "cont") else ETask)(env)
        task.script(rng, c["lens"])
        if c["sl"] or c["al"]:
            task.setScaling(pl(c["sl"]), pl(c["al"]))
        task.clipping = c["clip"]
        if c["disc"]:
            task.discount = c["disc"] / 16.
        m = Act(od, ad, rng)
        ln = Learner()
        ag = SpyLearning(m, ln)
        ag.logging = c["logging"]
        ex = {"inter": Experiment, "cont": ContinuousExperiment, "eps": EpisodicExperiment, "queue": QueuedExperiment, "fit": EpisodicExperiment}[kind](task, ag)
        box.update(env=env, task=task, m=m, ag=ag, ex=ex)
    err, _ = guarded(build)
    if err:
        steps.append({"op": "learn", "err": err, "n": 0, "want": 0})
        return T
    env, task, m, ag, ex = box["env"], box["task"], box["m"], box["ag"], box["ex"]
    used = 0
    for _ in range(rng.randint(1, 4)):
        del LOG[:]
        s = {"op": "run", "err": "", "kind": kind, "n": rng.choice([1, 1, 2, 3, 5]), "cycles": 0, "ret": 0, "rets": [], "cum": 0, "evs": [], "h": [], "fresh": True}
        if used + 12 > len(c["lens"]):
            break

        def f():
            if kind == "inter":
                s["ret"] = I(ex.doInteractions(s["n"]) if s["n"] != 1 or rng.random() < .5 else ex.doInteractions())
            elif kind == "cont":
                s["ret"] = I(ex.doInteractionsAndLearn(s["n"]))
            elif kind == "eps":
                s["rets"] = [[FX(r) for r in e] for e in (ex.doEpisodes(s["n"]) if s["n"] != 1 or rng.random() < .5 else ex.doEpisodes())]
                s["ret"], s["cum"] = I(ex.stepid), FX(task.getTotalReward())
            elif kind == "queue":
                s["cycles"] = rng.randint(0, 4)
                ex.run(s["n"], s["cycles"])
            else:
                s["op"] = "fit"
                task.batchSize = s["n"]
                del task.all[:]
                if rng.random() < .5:
                    m.wasreset = False
                    s["cum"] = FX(task.f(m))
                    s["fresh"] = m.wasreset
                else:
                    s["cum"] = FX(task.f(ag))
                s["rets"] = [list(x) for x in task.all]
            s["h"] = hist(ag.history)
        s["err"], _ = guarded(f)
        s["evs"] = list(LOG)
        used += s["n"] + s["cycles"] if kind != "inter" else 0
        if s["op"] == "fit":
            s["evs"] = []
        steps.append(s)
    return T


def run(job):
    rng, out = job.rng, []
    for k in range(job.args["count"]):
        out.append(agent_steps(rng, k) if rng.random() < .35 else experiment(rng, k))
    job.write("interact", out)


def replay(job):
    job.write("interact_gen", [agent_steps(job.rng, k, b["ops"], b["cfg"]) for k, b in enumerate(job.behaviours)])


main({"random": run, "replay": replay})
