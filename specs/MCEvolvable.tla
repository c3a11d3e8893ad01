---------------------------- MODULE MCEvolvable ----------------------------
EXTENDS Evolvable
VARIABLES gCfg, gState, gHist
CONSTANTS Kind, N, Max
Cfgs == {[kind |-> Kind, n |-> N, max |-> IF Kind = "cheap" THEN N ELSE Max, w0 |-> [i \in 1..N |-> IF Kind = "masked" /\ i > Max THEN 0 ELSE 5],
          v0 |-> [i \in 1..N |-> 5], mask0 |-> [i \in 1..N |-> Kind = "cheap" \/ i <= Max]]}
INSTANCE GenBase
MInv == MaskInv(gState)
ZInv == ZeroInv(gState)
(* disabled parameters keep their stored value: setting never touches them *)
KeepInv == \A k \in DOMAIN gState.objs : \A x \in {0, 7} : LET o == gState.objs[k] b == Put(o, [i \in 1..Cardinality(On(o)) |-> x])
             IN \A i \in DOMAIN o.mask : ~o.mask[i] => b.vals[i] = o.vals[i]
=============================================================================
