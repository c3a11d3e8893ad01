----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation: the traces recorded from the real code (a JSON
   array of [name, cfg, steps]) are replayed through the specification.
   Do(s, step) is the specification's verdict on one recorded step: the next
   specification state and the set of clauses the recorded step breaks.
   A trace stops at its first broken step.  The specification resolves all
   non-determinism from the recorded step, so each trace is one behaviour and
   the number of distinct states is #steps + #traces when all are accepted. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_), Do(_, _)
VARIABLES vTid, vIdx, vState
Traces == TLCGet(77)
tvars == <<vTid, vIdx, vState>>
TInit == /\ vTid \in 1..Len(Traces)
         /\ vIdx = 0
         /\ vState = Init0(Traces[vTid].cfg)
TNext == /\ vIdx >= 0
         /\ vIdx < Len(Traces[vTid].steps)
         /\ LET r == Do(vState, Traces[vTid].steps[vIdx + 1])
            IN  IF r.bad = {}
                THEN /\ vState' = r.s
                     /\ vIdx' = vIdx + 1
                ELSE /\ PrintT(<<"TRACEFAIL", vTid, vIdx + 1, r.bad>>)
                     /\ vState' = vState
                     /\ vIdx' = -1
         /\ UNCHANGED vTid
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
