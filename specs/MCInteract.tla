----------------------------- MODULE MCInteract -----------------------------
EXTENDS Interact
VARIABLES gCfg, gState, gHist
Cfgs == {[logging |-> l, bound |-> 5, sl |-> <<>>, al |-> <<>>, clip |-> TRUE, disc |-> 0, lens |-> <<>>] : l \in BOOLEAN}
INSTANCE GenBase WITH Init0 <- IInit, Ops <- IOps, Next0 <- INext0
EpisodesInv == NoEmpty(gState)
PhasesInv == PhaseInv(gState)
=============================================================================
