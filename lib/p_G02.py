ASSUMPTIONS = ["a move outside the board may be refused either by returning False or by an exception",
               "stones enclosed by a move that wins by captures may stay on the board (the game is over)"]
INV = ["FiveInv", "PairInv", "DrawInv", "OpenInv"]


def K(r, c, p):
    return "CONSTANTS R = %d\n C = %d\n Pente = %s" % (r, c, p)


def run(ctx):
    def a():
        ctx.mc("MCGomoku", invariants=INV, constants=K(5, 6, "FALSE"))
        ctx.mc("MCGomoku", invariants=INV, constants=K(*ctx.scale((6, 6, "TRUE"), (6, 7, "TRUE"))))
        beh = ctx.gen("MCGomoku", depth=9, constants=K(6, 7, "TRUE"), num=ctx.scale(100, 1500))
        beh += ctx.gen("MCGomoku", depth=8, constants=K(7, 6, "FALSE"), num=ctx.scale(100, 1500))
        ctx.validate("TraceGomoku", ctx.drive("gomoku", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceGomoku", ctx.drive("gomoku", "random", {"count": ctx.scale(150, 3000)}))
    ctx.parallel(a, b)
