ASSUMPTIONS = ["results are small integers; fitness is compared in fixed point (60/4096), ties and tie-breaking by the global score are left open",
               "shared sampling is driven without hall-of-fame games and with at least three players"]
NOTE = "Coev.tla: games, scores, shared fitness, selection, reproduction, roles and limits; antisymmetry, conservation of shared points and greedy sampling are model-checked; generations recorded from the three algorithms (with outcome sequences of the specification and random ones) validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT PLAYERS = %d\nCONSTANT STEPS = %d" % (ctx.scale(4, 4), ctx.scale(6, 8))
        ctx.mc("MCCoev", invariants=["AntiInv", "ZeroInv", "CountInv", "ShareInv", "GreedyInv"], constants=con, workers=3)
        beh = ctx.gen("MCCoev", depth=40, num=ctx.scale(250, 2500), constants="CONSTANT PLAYERS = 4\nCONSTANT STEPS = 999")
        ctx.validate("TraceCoev", ctx.drive("coev", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceCoev", ctx.drive("coev", "random", {"count": ctx.scale(1000, 12000)}))
    ctx.parallel(a, b)
