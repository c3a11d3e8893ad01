---------------------------- MODULE TraceRanks ----------------------------
(* Trace validation of recorded executions against Ranks (see TraceBase). *)
EXTENDS Ranks, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- RInit0, Do <- RDo
=============================================================================
