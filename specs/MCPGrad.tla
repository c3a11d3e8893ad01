------------------------------ MODULE MCPGrad ------------------------------
EXTENDS PGrad
VARIABLES gCfg, gState, gHist
CONSTANT DEEP
Cfgs == {[PCfg0 EXCEPT !.mom = m, !.alpha = 5, !.b = b, !.expl = x, !.bound = DEEP] : m \in {0, 8}, b \in {0, 1}, x \in {"normal", "sde"}}
INSTANCE GenBase WITH Init0 <- PInit, Ops <- POps, Next0 <- PNext0
AlignedInv == Aligned(gState)
ShiftInvariance == ShiftInv(gState)
AscentInv == Ascent(gState)
InertInv == Inert(gState)
=============================================================================
