ASSUMPTIONS = ["the training loop is driven with a trainer whose successive weights are prescribed, so that every order of errors occurs; errors and features are compared in fixed point (1/4096)",
               "files are written in a scratch directory the driver creates and removes"]
NOTE = "Tools.tla: the train-until-converged loop (blocks, curves, best weights, both ways of treating the block that crosses the epoch limit), windows, normalization, pickled dictionaries and file readers; the best-weights and partition laws are model-checked; generated and random histories are run on the real tools and validated step by step by TLC."


def run(ctx):
    def a():
        con = "CONSTANT SIZE = %d" % ctx.scale(2, 3)
        ctx.mc("MCTools", invariants=["BestInv", "WinInv", "DictInv"], constants=con, workers=3)
        beh = ctx.gen("MCTools", depth=6, num=ctx.scale(250, 2000), constants="CONSTANT SIZE = 99")
        ctx.validate("TraceTools", ctx.drive("tools", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceTools", ctx.drive("tools", "random", {"count": ctx.scale(800, 8000)}))
    ctx.parallel(a, b)
