import netcheck
ASSUMPTIONS = ['integer weights and inputs (all arithmetic of the explored networks is exact)', 'module meshes and slices are exercised as connection ends']


def run(ctx):
    netcheck.go(ctx, ["ff", "ff", "ff", "rec"], {"depth": 2, "objs": 1, "nosub": 0.4, "len": 20}, cyc=ctx.scale(250, 3000), mc=("ff",), genkinds=("ff",))
