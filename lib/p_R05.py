ASSUMPTIONS = ["positions, angles and velocities are compared in fixed point (about 1/400, mountain car 3 millionths); the motion is compared where velocities are moderate (20 rad/s for poles, 6 rad/s for the acrobot) and only bounded otherwise",
               "numpy's normal generator is replaced by one with recorded draws"]
NOTE = "Control.tla: the equations of motion in fixed point and the reward, termination, scaling and total-reward rules of the tasks; bounds, mirror symmetry and reward laws are model-checked; histories of the specification and random ones are run on the real environments and validated step by step by TLC."


def run(ctx):
    def a():
        con = "CONSTANT DEPTH = %d" % ctx.scale(5, 7)
        ctx.mc("MCControl", invariants=["BoundInv", "MirrorInv", "RewardInv", "ObsInv", "FinishInv"], constants=con, workers=3)
        beh = ctx.gen("MCControl", depth=12, num=ctx.scale(150, 1500), constants="CONSTANT DEPTH = 99")
        ctx.validate("TraceControl", ctx.drive("control", "replay", behaviours=beh))

    def b():
        ctx.validate("TraceControl", ctx.drive("control", "random", {"count": ctx.scale(500, 5000)}))
    ctx.parallel(a, b)
