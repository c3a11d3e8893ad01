ASSUMPTIONS = ["ties may be broken in any way; random choices (tournament opponents, parents, hash permutations) may be any",
               "ranking functions get at least two candidates; at least one parent is kept; points of at most three dimensions are hashed in Euclidean space",
               "fitness values are integers, weights are compared in fixed point (8/4096)"]
NOTE = "Ranks.tla: weights of ranks, grids, populations with their operators, and hashed neighbours; monotonicity, preservation of the best and self-neighbourhood are model-checked; histories of the specification and random calls on the real classes are validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT DEPTH = %d\nCONSTANT SIZE = 3\nCONSTANT BITS = 3\nCONSTANT RANKS = %d" % (ctx.scale(5, 7), ctx.scale(9, 12))
        ctx.mc("MCRanks", invariants=["TopInv", "BestInv", "SelfInv"], constants=con, workers=3)
        beh = ctx.gen("MCRanks", depth=14, num=ctx.scale(400, 4000), constants="CONSTANT DEPTH = 99\nCONSTANT SIZE = 5\nCONSTANT BITS = 4\nCONSTANT RANKS = 3")
        ctx.validate("TraceRanks", ctx.drive("ranks", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceRanks", ctx.drive("ranks", "random", {"count": ctx.scale(1600, 16000)}))
    ctx.parallel(a, b)
