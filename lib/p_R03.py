ASSUMPTIONS = ["transition probabilities in sixteenths, integer rewards, discounts up to 15/16; values compared at 16 fractional bits with a tolerance of 0.0015",
               "models of at most 5 states and 4 actions; least squares with complete features, or aggregated states at a discount of at most 1/4 (where the projected equation has one solution)"]
NOTE = "Bellman.tla: policy iteration as a transition system, model-checked for improvement, termination and optimality on all small models; recorded runs (with scripted value functions) validated step by step, solvers by Bellman residuals."


def run(ctx):
    def a():
        d = ctx.scale(1, 2)
        ctx.mc("MCBellman", invariants=["ImprovesInv", "TerminatesInv", "OptimalInv"], constants="CONSTANT DEEP = %d\nCONSTANT REPLAY = FALSE" % d, workers=4)
        beh = ctx.gen("MCBellman", depth=4, num=ctx.scale(1500, 12000), constants="CONSTANT DEEP = %d\nCONSTANT REPLAY = TRUE" % d)
        ctx.validate("TraceBellman", ctx.drive("bellman", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceBellman", ctx.drive("bellman", "random", {"count": ctx.scale(2000, 30000)}))
    ctx.parallel(a, b)
