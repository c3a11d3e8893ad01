import netcheck
ASSUMPTIONS = ['integer weights and inputs (all arithmetic of the explored networks is exact)', 'names are unique within a network']


def run(ctx):
    netcheck.go(ctx, ["ff", "rec", "forget"], {"depth": 2, "objs": 4, "copyw": 4, "late": 0.15, "count": ctx.scale(300, 3000)}, mc=("rec",))
