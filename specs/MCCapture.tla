----------------------------- MODULE MCCapture -----------------------------
EXTENDS Capture
CONSTANT MaxN
VARIABLES gCfg, gState, gHist
Cfgs == {[n |-> n, suicide |-> z] : n \in {MaxN}, z \in BOOLEAN}
INSTANCE GenBase
TypeInv == TypeOK(gState)
AliveInv == AllAlive(gState)
FinalInv == OneFinal(gState)
FullInv == NeverFull(gState)
GroupInv == GroupConsistent(gState)
FastInv == Fast(gState)
KillInv == KillingAreLegal(gState)
=============================================================================
