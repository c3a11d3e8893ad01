import netcheck
ASSUMPTIONS = ["integer weights and inputs (all arithmetic of the explored networks is exact)",
               "masked parameters and their copies wrap one shared module, as documented in TopologyEvolvable.copy"]


def run(ctx):
    netcheck.go(ctx, ["ff", "rec"], {"depth": 2, "objs": 3, "copyw": 2, "share": 0.6, "late": 0.5, "nosub": 0.6,
                                     "count": ctx.scale(250, 3000), "hows": ["copy", "deepcopy", "pickle"]})
    inv = ["MInv", "ZInv", "KeepInv"]
    K = lambda k, n, m: 'CONSTANTS Kind = "%s"\n N = %d\n Max = %d' % (k, n, m)
    ctx.mc("MCEvolvable", invariants=inv, constants=K("masked", 3, 2))
    ctx.mc("MCEvolvable", invariants=["MInv"], constants=K("cheap", 2, 2))
    ctx.validate("TraceEvolvable", ctx.drive("evolvable", "random", {"count": ctx.scale(200, 3000)}))
