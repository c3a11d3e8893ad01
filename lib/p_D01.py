ASSUMPTIONS = ["row values are integers", "rows of a single value may be broadcast to a wider field and are not used as wrong rows",
               "linked fields are only replaced (setField) all together, by equally many rows"]
INV = ["AlignedInv", "SameInv", "OrderInv", "PartInv", "MarkInv", "WidthInv"]
CL = ["DataSet", "SupervisedDataSet", "UnsupervisedDataSet", "ImportanceDataSet", "ClassificationDataSet"]


def K(classes, maxlen, maxobj, maxn=6):
    return "CONSTANTS Classes = {%s}\n MaxLen = %d\n MaxObj = %d\n MaxN = %d" % (", ".join('"%s"' % c for c in classes), maxlen, maxobj, maxn)


def go(ctx, classes, objs, mcobj, depth, args, maxn=6):
    def a():
        ctx.mc("MCDataSet", invariants=INV, constants=K(classes, 4, mcobj, maxn), constraint="Bound")
        beh = ctx.gen("MCDataSet", depth=2, constants=K(classes, 9, mcobj))
        beh += ctx.gen("MCDataSet", depth=depth, num=ctx.scale(250, 3000), constants=K(classes, 9, mcobj))
        ctx.validate("TraceDataSet", ctx.drive("dataset", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceDataSet", ctx.drive("dataset", "random", dict({"count": ctx.scale(300, 4000), "classes": classes, "objs": objs}, **args)))
    ctx.parallel(a, b)


def run(ctx):
    go(ctx, CL, [1], 1, 14, {"len": 60})
