---------------------------- MODULE TraceBellman ----------------------------
(* Trace validation of recorded executions against Bellman (see TraceBase). *)
EXTENDS Bellman, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- BInit, Do <- BDo
=============================================================================
