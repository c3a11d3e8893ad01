ASSUMPTIONS = ["fixed-point oracle with 12 fractional bits: values are compared with a tolerance of about 0.003 (outputs) and 0.01 (errors)",
               "noise of Gaussian layers and samples are taken from the recording and bounded, not tested statistically",
               "one sequence is propagated back completely, in reverse order, before the next starts"]
NOTE = "Fixed.tla (exp, ln, sigmoid, tanh in integer arithmetic) + Modules.tla; TLC checks that the specified backward passes are the slopes of the specified forward passes, and validates recorded sequences of every module type alone, in feed-forward and in recurrent networks."


def run(ctx):
    def a():
        ctx.mc("MCModules", invariants=["GradInv", "SumInv", "TimeInv"], workers=3)

    def b():
        beh = ctx.gen("MCModules", depth=9, num=ctx.scale(150, 1500))
        ctx.validate("TraceModules", ctx.drive("modules", "replay", behaviours=beh))

    def c():
        ctx.validate("TraceModules", ctx.drive("modules", "random", {"count": ctx.scale(900, 12000), "len": 30}))
    ctx.parallel(a, b, c)
