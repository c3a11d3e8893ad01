---------------------------- MODULE TracePlay ----------------------------
(* Trace validation of recorded executions against Play (see TraceBase). *)
EXTENDS Play, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- PInit, Do <- PDo
=============================================================================
