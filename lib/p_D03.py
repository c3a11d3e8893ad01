ASSUMPTIONS = ["class labels are the integers 0..k-1, with all of them present when the number of classes is not declared",
               "split fractions are multiples of 1/16 (exactly representable)"]
INV = ["Len1Inv", "OneOfManyInv", "HistogramInv"]


def run(ctx):
    def a():
        ctx.mc("MCSplits", invariants=INV, constants="CONSTANT MaxLen = %d" % ctx.scale(3, 5), constraint="Bound")
        beh = ctx.gen("MCSplits", depth=16, num=ctx.scale(400, 4000), constants="CONSTANT MaxLen = 9")
        ctx.validate("TraceSplits", ctx.drive("splits", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceSplits", ctx.drive("splits", "random", {"count": ctx.scale(500, 8000)}))
    ctx.parallel(a, b)
