import p_D01
ASSUMPTIONS = ["row values are integers", "the row marker and the vector format of a copy may start afresh or be taken over"]


def run(ctx):
    p_D01.go(ctx, p_D01.CL + ["SequentialDataSet", "ReinforcementDataSet", "SequenceClassificationDataSet"], [2, 3, 3], 2, 12, {"len": 35}, maxn=ctx.scale(4, 6))
