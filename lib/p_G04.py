ASSUMPTIONS = ["mazes have a walled border; noise probabilities are 0 or 1 (with noise, the outcome is one of the allowed ones)",
               "rewards and discounts are compared at 12 fractional bits"]
NOTE = "Maze.tla: movement, observation, reward and end of episode as a transition system, model-checked on all small mazes; behaviours replayed and recorded episodes of every maze task and the tiger task validated by TLC."


def run(ctx):
    def a():
        con = "CONSTANT H = %d" % ctx.scale(2, 3)
        ctx.mc("MCMaze", invariants=["InFreeInv", "BumpInv", "UndoInv", "TurnInv", "SeeInv"], constants=con, workers=4)
        beh = ctx.gen("MCMaze", depth=12, num=ctx.scale(600, 6000), constants=con)
        ctx.validate("TraceMaze", ctx.drive("maze", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceMaze", ctx.drive("maze", "random", {"count": ctx.scale(2500, 40000)}))
    ctx.parallel(a, b)
