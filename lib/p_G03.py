ASSUMPTIONS = ["the rules of the games themselves are G01/G02; boards up to 5x5 (capture) and 5x8 (Go-Moku, Pente)",
               "tournaments are played on a scripted game (lengths, results, draws and illegal attempts) with up to 4 agents; Elo ratings compared to 0.2 points"]
NOTE = "Play.tla: tasks against an opponent as a transition system (model-checked, behaviours replayed into the real tasks), tournaments, Elo and players' moves validated by TLC against the rules specified in Capture.tla and Gomoku.tla."


def run(ctx):
    def a():
        ctx.mc("MCPlay", invariants=["ColourInv", "RewardInv", "FairInv"], constants="CONSTANT DEEP = %d" % ctx.scale(8, 12), workers=3)
        beh = ctx.gen("MCPlay", depth=12, num=ctx.scale(500, 6000), constants="CONSTANT DEEP = 14")
        ctx.validate("TracePlay", ctx.drive("play", "replay", behaviours=beh))

    def b():
        ctx.validate("TracePlay", ctx.drive("play", "random", {"count": ctx.scale(1500, 25000)}))
    ctx.parallel(a, b)
