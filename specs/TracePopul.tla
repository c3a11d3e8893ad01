---------------------------- MODULE TracePopul ----------------------------
(* Trace validation of recorded executions against Popul (see TraceBase). *)
EXTENDS Popul, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- PInit0, Do <- PDo
=============================================================================
