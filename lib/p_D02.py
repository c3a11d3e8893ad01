import p_D01
ASSUMPTIONS = ["row values are integers", "starting a new sequence while the current one is empty may be refused or ignored"]


def run(ctx):
    p_D01.go(ctx, ["SequentialDataSet", "ReinforcementDataSet", "ImportanceDataSet", "SequenceClassificationDataSet"], [1], 1, 14, {"len": 50})
