---------------------------- MODULE TracePGrad ----------------------------
(* Trace validation of recorded executions against PGrad (see TraceBase). *)
EXTENDS PGrad, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- PInit, Do <- PDo
=============================================================================
