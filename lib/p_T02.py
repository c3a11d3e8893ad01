ASSUMPTIONS = ["fixed-point oracle with 12 fractional bits; step sizes with 20",
               "the sign of a gradient smaller than 0.006 in a trained network is taken from the recorded move"]
NOTE = "Train.tla: RProp rule per parameter; TLC checks the step bounds on all short gradient histories and validates recorded epochs and helper calls."


def run(ctx):
    def a():
        ctx.mc("MCTrain", invariants=["StepsInv", "RatesInv", "SlopesInv"], workers=3)
        beh = [b for b in ctx.gen("MCTrain", depth=6, num=ctx.scale(300, 3000)) if b["cfg"]["tr"] == "gdr"]
        ctx.validate("TraceTrain", ctx.drive("train", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceTrain", ctx.drive("train", "random", {"count": ctx.scale(500, 8000), "what": "rprop"}))

    def c():
        ctx.validate("TraceTrain", ctx.drive("train", "irprop"))
    ctx.parallel(a, b, c)
