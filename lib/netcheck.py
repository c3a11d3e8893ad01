"""Shared by the checks that use the network specification (N01-N04, N06)."""
INV = ["GradInv", "AcyclicInv", "IndepInv"]
TC = "CONSTANTS Vals = {0}\n MaxT = 1"


def K(kind, vals, maxt, mag):
    return 'CONSTANTS Kind = "%s"\n Vals = {%s}\n MaxT = %d\n Mag = %d' % (kind, ",".join(map(str, vals)), maxt, mag)


def go(ctx, kinds, args, cyc=0, mc=("ff", "rec"), genkinds=("ff", "rec", "forget")):
    def a():
        for k in mc:
            ctx.mc("MCNet", invariants=INV, constants=K(k, [2], 2, ctx.scale(3, 5)), constraint="MCBound", label="MCNet/" + k)
        beh = []
        for k in genkinds:
            beh += ctx.gen("MCNet", depth=10, num=ctx.scale(60, 800), constants=K(k, [0, 2], 3, 99), label="MCNet/" + k)
        ctx.validate("TraceNet", ctx.drive("net", "replay", behaviours=beh), constants=TC)
        if cyc:
            ctx.validate("TraceNet", ctx.drive("net", "cyc", {"count": cyc}), constants=TC)

    def b():
        ctx.validate("TraceNet", ctx.drive("net", "random", dict({"count": ctx.scale(350, 4000), "kinds": kinds}, **args)), constants=TC)
    ctx.parallel(a, b)
