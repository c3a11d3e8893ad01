ASSUMPTIONS = ["early stopping is driven with scripted epochs (the validation error is an exact function of the scripted weight); the training step itself is T01/T02",
               "validation errors that differ in the scripted histories differ by far more than the rounding of the convergence test",
               "datasets of at most 42 rows, histories of at most 40 epochs"]
NOTE = "Validate.tla: early stopping as a transition system over validation histories, model-checked and replayed; recorded epochs, folds and measures validated by TLC."


def run(ctx):
    def a():
        ctx.mc("MCValidate", invariants=["BestsInv", "StopsInv"], constants="CONSTANT MCDEEP = %d" % ctx.scale(7, 9), constraint="Bound", workers=3)
        beh = ctx.gen("MCValidate", depth=8, num=ctx.scale(500, 6000), constants="CONSTANT MCDEEP = 9")
        ctx.validate("TraceValidate", ctx.drive("validate", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceValidate", ctx.drive("validate", "random", {"count": ctx.scale(2500, 40000)}))
    ctx.parallel(a, b)
