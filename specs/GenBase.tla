------------------------------ MODULE GenBase ------------------------------
(* Generic exploration of a specification: exhaustive model checking of the
   reachable states (GSpec, no history), and generation of behaviours (HSpec,
   the history of operations is part of the state and is printed as JSON when
   it has reached the requested depth; one final Emit step per behaviour so
   that simulation prints each behaviour exactly once). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Cfgs, Init0(_), Ops(_), Next0(_, _)
VARIABLES gCfg, gState, gHist
gvars == <<gCfg, gState, gHist>>
Depth == atoi(IOEnv.GEN_DEPTH)
GInit == /\ gCfg \in Cfgs
         /\ gState = Init0(gCfg)
         /\ gHist = <<>>
GNext == /\ \E op \in Ops(gState) : gState' = Next0(gState, op)
         /\ UNCHANGED <<gCfg, gHist>>
GSpec == GInit /\ [][GNext]_gvars
HNext == \/ /\ Len(gHist) < Depth
            /\ \E op \in Ops(gState) :
                  /\ gState' = Next0(gState, op)
                  /\ gHist' = Append(gHist, op)
            /\ UNCHANGED gCfg
         \/ /\ Len(gHist) <= Depth
            /\ (Len(gHist) = Depth \/ Ops(gState) = {})
            /\ PrintT("BEHAVIOUR " \o ToJson([cfg |-> gCfg, ops |-> gHist]))
            /\ gHist' = [k \in 1..(Depth + 1) |-> <<>>]
            /\ UNCHANGED <<gCfg, gState>>
HSpec == GInit /\ [][HNext]_gvars
=============================================================================
