ASSUMPTIONS = ["probabilities, weights and likelihoods are compared in fixed point (1/4096, tolerances of about 1/170 or 1%)",
               "numpy's generators are replaced by recorded draws; a comparison of a probability with a draw that is too close to call is not judged"]
NOTE = "Density.tla: contrastive divergence (phases, batches, momentum, weight cost), inversion of a machine, greedy layer-wise training, and the likelihood and its gradient for mixture densities, in fixed point; inversion, order-independence and finite-difference laws are model-checked; generated and random histories are run on the real trainers and validated step by step by TLC."


def run(ctx):
    def a():
        con = "CONSTANT SIZE = %d" % ctx.scale(2, 3)
        ctx.mc("MCDensity", invariants=["TurnInv", "ProbInv", "OrderInv", "SlopeInv", "MixInv"], constants=con, workers=3)
        beh = ctx.gen("MCDensity", depth=4, num=ctx.scale(150, 1200), constants="CONSTANT SIZE = 99")
        ctx.validate("TraceDensity", ctx.drive("density", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceDensity", ctx.drive("density", "random", {"count": ctx.scale(700, 5000)}))
    ctx.parallel(a, b)
