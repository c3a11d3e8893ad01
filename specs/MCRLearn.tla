------------------------------ MODULE MCRLearn ------------------------------
EXTENDS RLearn
VARIABLES gCfg, gState, gHist
CONSTANT DEEP
Cfgs == {[alg |-> a, na |-> 2, ns |-> 2, nf |-> 1, alpha |-> al, gamma |-> 8, lam |-> 12, lr |-> 0, t0 |-> <<0, 16384, 0, 8192>>, bound |-> DEEP] : a \in {"q", "sarsa", "ql"}, al \in {4, 8, 16}}
INSTANCE GenBase WITH Init0 <- RInit, Ops <- ROps, Next0 <- RNext0
RangesInv == RangeInv(gState)
=============================================================================
