ASSUMPTIONS = ["learning rates, discounts, traces and rewards are dyadic; values are compared at 16 fractional bits with a tolerance of 0.0015 per learning call (the linear variants at 8 bits per product)",
               "tables of at most 5 states and 4 actions, episodes up to 30 steps"]
NOTE = "RLearn.tla: the update equations per transition and episode; TLC model-checks the value range on all short histories, and validates recorded agent/learner histories transition by transition."


def run(ctx):
    def a():
        ctx.mc("MCRLearn", invariants=["RangesInv"], constants="CONSTANT DEEP = %d" % ctx.scale(4, 5), workers=3)
        beh = ctx.gen("MCRLearn", depth=9, num=ctx.scale(500, 5000), constants="CONSTANT DEEP = 9")
        ctx.validate("TraceRLearn", ctx.drive("rlearn", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceRLearn", ctx.drive("rlearn", "random", {"count": ctx.scale(1500, 25000)}))
    ctx.parallel(a, b)
