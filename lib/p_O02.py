ASSUMPTIONS = ["among candidates of equal value the choice is left open",
               "the GA is driven without mutation where children are traced back to their parents (bounds are checked with mutation); populations in which an elite of the full size leaves no room for children are not driven",
               "particle swarms: velocities are checked exactly in direction when either memory or sociality is zero"]
NOTE = "Popul.tla: hill climbing, memetic search, evolution strategies, GA and PSO generations over candidates with recorded descent; hill climbing and ES are model-checked and replayed, all recorded runs validated by TLC."


def run(ctx):
    def a():
        ctx.mc("MCPopul", invariants=["SizeInv"], properties=["Mono", "KeptProp"], constants="CONSTANT MAXC = %d" % ctx.scale(16, 24), constraint="Bound", workers=3)
        beh = ctx.gen("MCPopul", depth=6, num=ctx.scale(800, 8000), constants="CONSTANT MAXC = 99")
        ctx.validate("TracePopul", ctx.drive("popul", "replay", behaviours=beh))

    def b():
        ctx.validate("TracePopul", ctx.drive("popul", "random", {"count": ctx.scale(3000, 30000)}))
    ctx.parallel(a, b)
