--------------------------- MODULE TraceBuilders ---------------------------
(* Trace validation of recorded executions against Builders (see TraceBase). *)
EXTENDS Builders, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- EInit, Do <- EDo
=============================================================================
