----------------------------- MODULE MCDataSet -----------------------------
EXTENDS DataSet
CONSTANTS Classes, MaxLen, MaxObj, MaxN
VARIABLES gCfg, gState, gHist
Cfgs == {[cls |-> c, d1 |-> 2, d2 |-> 1, rows0 |-> <<>>] : c \in Classes}
INSTANCE GenBase
All(P(_)) == \A o \in DOMAIN gState.objs : P(gState.objs[o])
AlignedInv == All(Aligned)
SameInv == All(LAMBDA d : IF d.cls \in Classy \cup {"DataSet"} THEN TRUE ELSE SameAppend(d))
OrderInv == All(LAMBDA d : IF d.cls \in Classy THEN TRUE ELSE Ordered(d))
PartInv == All(Partition)
MarkInv == All(MarkerOk)
WidthInv == All(Widths)
(* bounded exploration; the stamp is a history variable and is abstracted away *)
Bound == /\ \A o \in DOMAIN gState.objs : LenOf(gState.objs[o]) <= MaxLen
         /\ Len(gState.objs) <= MaxObj /\ gState.n <= MaxN
=============================================================================
