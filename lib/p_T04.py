ASSUMPTIONS = ["activations are compared in fixed point (40/4096 for the cells, 100/4096 and 1/64 for the outputs); the outputs of an evaluation are compared where the output weights are at most 12",
               "fitness values of the evolution are integers; the washout part of every sequence holds at least one value",
               "the order of the connections within a chromosome is left to the implementation"]
NOTE = "Evolino.tla: the recurrent LSTM network with its feedback, the genome mapping, and the epochs of the trainer; genome round trips, feedback laws and the burst rule are model-checked; histories of the specification and random ones are run on EvolinoNetwork and EvolinoTrainer and validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT DEPTH = %d\nCONSTANT EPOCHS = %d" % (ctx.scale(3, 4), ctx.scale(7, 10))
        ctx.mc("MCEvolino", invariants=["GenomeInv", "FeedInv", "RangeInv", "MaxInv"], constants=con, workers=3)
        beh = ctx.gen("MCEvolino", depth=10, num=ctx.scale(80, 600), constants="CONSTANT DEPTH = 99\nCONSTANT EPOCHS = 99")
        ctx.validate("TraceEvolino", ctx.drive("evolino", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceEvolino", ctx.drive("evolino", "random", {"count": ctx.scale(160, 1200)}))
    ctx.parallel(a, b)
