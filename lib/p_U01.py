ASSUMPTIONS = ["random drawing: nothing impossible is drawn (also at the ends of the random numbers), and the counts of seeded draws stay within seven standard deviations",
               "memoised functions get hashable arguments; equal arguments are the same arguments", "reachability does not pass through another destination (as the unit test shows)"]
NOTE = "Utils.tla: graph search layers are model-checked against walks, Gray codes and block permutations against bijectivity; growing graphs and recorded calls of the whole utility library (call histories of memoised functions included) are validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT NODES = 4\nCONSTANT EDGES = %d\nCONSTANT BITS = %d" % (ctx.scale(4, 8), ctx.scale(7, 10))
        ctx.mc("MCUtils", invariants=["LayerInv"], constants=con, workers=3)
        beh = ctx.gen("MCUtils", depth=12, num=ctx.scale(250, 2500), constants="CONSTANT NODES = 7\nCONSTANT EDGES = 99\nCONSTANT BITS = 2")
        ctx.validate("TraceUtils", ctx.drive("utils", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceUtils", ctx.drive("utils", "random", {"count": ctx.scale(2200, 22000), "draws": ctx.scale(400, 2000)}))
    ctx.parallel(a, b)
