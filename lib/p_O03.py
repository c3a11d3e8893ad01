ASSUMPTIONS = ["smaller fitness values dominate (the convention of pybrain.tools.nondominated); fitness values are integers, so that ties are exact",
               "crowding distances are compared to 2/4096 of the range of an objective; the order among tied items is left open",
               "generations of the multi-objective GA run without mutation, so that every child must be a crossing of two selected parents"]
NOTE = "Pareto.tla: fronts, non-dominated sorting, crowding, NSGA-II selection and generations; the incremental front is model-checked against the definition (and the divide-and-conquer law), behaviours and recorded fitness tables (up to 205 items) and GA generations validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT DEEP = %d\nCONSTANT GRID = %d" % (ctx.scale(5, 7), ctx.scale(2, 2))
        ctx.mc("MCPareto", invariants=["FrontInv", "CoverInv", "MergeInv"], constants=con, workers=3)
        beh = ctx.gen("MCPareto", depth=9, num=ctx.scale(400, 4000), constants="CONSTANT DEEP = 12\nCONSTANT GRID = 4")
        ctx.validate("TracePareto", ctx.drive("pareto", "replay", behaviours=beh))

    def b():
        ctx.validate("TracePareto", ctx.drive("pareto", "random", {"count": ctx.scale(3000, 40000), "big": ctx.scale(16, 150)}))
    ctx.parallel(a, b)
