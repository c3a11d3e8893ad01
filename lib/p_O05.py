ASSUMPTIONS = ["points have half-integer coordinates (exact arithmetic); functions without an exact formula there are judged by consistency, non-negativity and the value of their declared optimum",
               "rotations are integer matrices with integer inverses, or random ones of the sphere",
               "the Lennard-Jones energy has no declared optimum; transformations of functions that are already penalised are left as they are"]
NOTE = "Funcs.tla: live benchmark functions under stacks of wrappers, with exact formulas; the declared optimum, its optimality, soft constraints and double opposites are model-checked; histories of the specification and random sessions (all single- and multi-objective functions, BBOB) are validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT DEPTH = %d\nCONSTANT MAX = %d" % (ctx.scale(4, 5), ctx.scale(3, 4))
        ctx.mc("MCFuncs", invariants=["OptInv", "BestInv", "SoftInv", "TwiceInv"], constants=con, workers=3)
        beh = ctx.gen("MCFuncs", depth=14, num=ctx.scale(500, 5000), constants="CONSTANT DEPTH = 99\nCONSTANT MAX = 7")
        ctx.validate("TraceFuncs", ctx.drive("funcs", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceFuncs", ctx.drive("funcs", "random", {"count": ctx.scale(1600, 20000), "bbob": ctx.scale(2, 10)}))
    ctx.parallel(a, b)
