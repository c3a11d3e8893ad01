--------------------------- MODULE TraceValidate ---------------------------
(* Trace validation of recorded executions against Validate (see TraceBase). *)
EXTENDS Validate, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- VInit, Do <- VDo
=============================================================================
