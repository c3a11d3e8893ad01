ASSUMPTIONS = ["observations, actions and rewards are dyadic, so scaling and discounting are exact up to fixed-point rounding",
               "environments, modules and learners are scripted; episodes of at most 6 steps, queues of at most 5 episodes"]
NOTE = "Interact.tla: the agent protocol as a state machine (model-checked, behaviours replayed) and the event automaton of the experiments, against which TLC validates recorded interactions."


def run(ctx):
    def a():
        ctx.mc("MCInteract", invariants=["EpisodesInv", "PhasesInv"], workers=3)
        beh = ctx.gen("MCInteract", depth=9, num=ctx.scale(800, 8000))
        ctx.validate("TraceInteract", ctx.drive("interact", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceInteract", ctx.drive("interact", "random", {"count": ctx.scale(2000, 30000)}))
    ctx.parallel(a, b)
