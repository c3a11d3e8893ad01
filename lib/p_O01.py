ASSUMPTIONS = ["objective values are integers (ties are exact); points are identified by their exact coordinates",
               "an undefined objective value ends the run; memetic searches, whose local searches catch it themselves, are driven without undefined values",
               "stochastic hill climbing and noisy hill climbing report their current point, which must be an evaluated one"]
NOTE = "Optim.tla: the record of evaluations and the stopping rule, model-checked and replayed; all optimizers are driven with scripted objectives, their calls, reports and logs validated by TLC, together with twin runs (negated objective, containers, setters, evaluator objects)."


def run(ctx):
    def a():
        ctx.mc("MCOptim", invariants=["BestInv", "CountInv", "DesiredInv", "StepsInv"], constants="CONSTANT MAXN = %d" % ctx.scale(4, 6), workers=3)
        beh = ctx.gen("MCOptim", depth=8, num=ctx.scale(900, 8000), constants="CONSTANT MAXN = 8")
        ctx.validate("TraceOptim", ctx.drive("optim", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceOptim", ctx.drive("optim", "random", {"count": ctx.scale(3500, 20000)}))
    ctx.parallel(a, b)
