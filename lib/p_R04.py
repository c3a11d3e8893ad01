ASSUMPTIONS = ["linear policies with at most 3 inputs and 2 actions; observations and rewards are small integers, initial parameters dyadic",
               "gradients are compared in fixed point (12 fractional bits) with a tolerance of about one per cent; ill-conditioned regressions are not judged",
               "learning and logging are switched on and off together, so that every recorded step has its gradient"]
NOTE = "PGrad.tla: log-likelihood gradient records, REINFORCE with optimal baseline, ENAC regression, descent step, reward-weighted regression; TLC model-checks alignment, shift invariance and ascent on all short histories and validates recorded learner histories."


def run(ctx):
    def a():
        ctx.mc("MCPGrad", invariants=["AlignedInv", "ShiftInvariance", "AscentInv", "InertInv"], constants="CONSTANT DEEP = %d" % ctx.scale(3, 4), workers=3)
        beh = ctx.gen("MCPGrad", depth=10, num=ctx.scale(300, 3000), constants="CONSTANT DEEP = 10")
        ctx.validate("TracePGrad", ctx.drive("pgrad", "replay", behaviours=beh))

    def b():
        ctx.validate("TracePGrad", ctx.drive("pgrad", "random", {"count": ctx.scale(900, 15000)}))
    ctx.parallel(a, b)
