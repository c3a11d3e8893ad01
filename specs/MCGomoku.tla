------------------------------ MODULE MCGomoku ------------------------------
EXTENDS Gomoku
CONSTANTS R, C, Pente
VARIABLES gCfg, gState, gHist
Cfgs == {[r |-> R, c |-> C, pente |-> Pente, line |-> l] : l \in {LineH(R, C), LineV(R, C), LineD(R, C), LineA(R, C)}}
INSTANCE GenBase
FiveInv == NoFive(gState)
PairInv == PairsOk(gState)
DrawInv == DrawFull(gState)
OpenInv == UndecidedOpen(gState)
=============================================================================
