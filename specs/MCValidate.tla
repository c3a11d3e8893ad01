----------------------------- MODULE MCValidate -----------------------------
EXTENDS Validate
VARIABLES gCfg, gState, gHist
CONSTANT MCDEEP
Cfgs == {[maxE |-> m, cont |-> n, v0 |-> v, vals |-> 3] : m \in {0, 1, 3, 5}, n \in 1..3, v \in 1..3}
INSTANCE GenBase WITH Init0 <- VInit, Ops <- VOps, Next0 <- VNext0
Bound == gState.k <= MCDEEP
BestsInv == BestInv(gState)
StopsInv == StopInv(gState)
=============================================================================
