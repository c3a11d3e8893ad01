ASSUMPTIONS = ["numpy's and random's generators are replaced by recorded draws on a dyadic grid, so that accept/reject comparisons are exact",
               "real-valued results (components, posterior means and covariances, mixture weights) are compared in fixed point (1/4096, tolerances of about 1%)"]
NOTE = "Analysis.tla: principal components (eigenvector equations and maximal variance in exact scatter matrices), greedy k-means seeds, Gaussian-process posteriors by elimination, importance mixing, stick-breaking buffets, adaptive resampling, mixtures of Gaussians, universal search, keyword arguments, notebooks of experiments; laws are model-checked, generated and random histories are run on the real code and validated step by step by TLC."


def run(ctx):
    def a():
        con = "CONSTANT SIZE = %d" % ctx.scale(2, 3)
        ctx.mc("MCAnalysis", invariants=["GpInv", "SeedInv", "AxisInv", "MixInv", "ResInv", "MogInv", "LevinInv"], constants=con, workers=3)
        beh = ctx.gen("MCAnalysis", depth=5, num=ctx.scale(300, 2500), constants="CONSTANT SIZE = 99")
        ctx.validate("TraceAnalysis", ctx.drive("analysis", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceAnalysis", ctx.drive("analysis", "random", {"count": ctx.scale(1200, 9000)}))
    ctx.parallel(a, b)
