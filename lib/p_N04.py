import netcheck
ASSUMPTIONS = ['integer weights and inputs (all arithmetic of the explored networks is exact)', 'activation and back-propagation through time are not interleaved within a sequence']


def run(ctx):
    netcheck.go(ctx, ["rec", "rec", "forget"], {"depth": 1, "objs": 1, "nosub": 0.8, "late": 0.15, "long": 0.3}, mc=("rec",), genkinds=("rec", "forget"))
