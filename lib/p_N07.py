ASSUMPTIONS = ["fixed-point oracle with 12 fractional bits: outputs are compared with a tolerance of about 0.004",
               "mesh side lengths up to 4 and hidden sizes up to 2; MDLSTM meshes are two-dimensional",
               "extrapolated weights of new border classes after resizing are not prescribed, only that known ones are kept"]
NOTE = "Builders.tla: the structure buildNetwork must produce, the recurrences of bidirectional, swiping, border-swiping, multi-dimensional (LSTM) and convolutional networks, and neuron decomposition. TLC checks reversal symmetries and the partition on the specification, enumerates construction options, and validates networks built by the real code."
INV = ["SymInv", "FlipInv", "PartInv", "ParInv", "BordInv"]


def run(ctx):
    def a():
        ctx.mc("MCBuilders", invariants=INV, workers=3)

    def b():
        beh = ctx.gen("MCBuilders", depth=1, limit=ctx.scale(500, None))
        beh = [x for x in beh if x["cfg"]["b"] != "dec"]
        ctx.validate("TraceBuilders", ctx.drive("builders", "replay", behaviours=beh))

    def c():
        ctx.validate("TraceBuilders", ctx.drive("builders", "random", {"count": ctx.scale(500, 8000)}))
    ctx.parallel(a, b, c)
