import netcheck
ASSUMPTIONS = ['integer weights and inputs (all arithmetic of the explored networks is exact)', 'the backward pass is called once per activation; nested networks are feed-forward (the derivatives of non-polynomial layers are checked by N05)']


def run(ctx):
    netcheck.go(ctx, ["ff", "ff", "rec"], {"depth": 1, "objs": 1, "nosub": 1.0, "share": 0.5}, genkinds=("ff", "rec"))
