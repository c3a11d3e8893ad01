ASSUMPTIONS = ["fixed-point oracle with 12 fractional bits; every update is judged from the recorded parameters before it, so errors do not accumulate",
               "networks with at most one hidden layer of two units, recurrent or not, and up to five sequences of four samples"]
NOTE = "Train.tla: gradient of the squared error (through time) and the update rule; TLC checks the gradient against slopes of the specified error and validates recorded epochs (every presentation and every parameter update)."


def run(ctx):
    def a():
        ctx.mc("MCTrain", invariants=["StepsInv", "RatesInv", "SlopesInv"], workers=3)
        beh = [b for b in ctx.gen("MCTrain", depth=6, num=ctx.scale(200, 2000)) if b["cfg"]["tr"] == "gd"]
        ctx.validate("TraceTrain", ctx.drive("train", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceTrain", ctx.drive("train", "random", {"count": ctx.scale(500, 8000), "what": "bp"}))
    ctx.parallel(a, b)
