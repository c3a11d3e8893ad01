ASSUMPTIONS = ["board sizes up to the explored ones represent all sizes", "rules of Go for groups and liberties as specified in Capture.tla"]
INV = ["TypeInv", "AliveInv", "FinalInv", "FullInv", "GroupInv", "KillInv", "FastInv"]


def run(ctx):
    def a():
        for n in ([2] if not ctx.thorough else [2, 3]):
            ctx.mc("MCCapture", invariants=INV, constants="CONSTANT MaxN = %d" % n)
        beh = ctx.gen("MCCapture", depth=ctx.scale(4, 5), constants="CONSTANT MaxN = 2")
        beh += ctx.gen("MCCapture", depth=30, num=ctx.scale(150, 2000), constants="CONSTANT MaxN = 4")
        files = ctx.drive("capture", "replay", behaviours=beh)
        ctx.validate("TraceCapture", files)

    def b():
        files = ctx.drive("capture", "random", {"count": ctx.scale(250, 4000), "sizes": [1, 2, 3, 3, 4, 4, 5, 6, 7]})
        ctx.validate("TraceCapture", files)
    ctx.parallel(a, b)
