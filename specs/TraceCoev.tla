---------------------------- MODULE TraceCoev ----------------------------
(* Trace validation of recorded executions against Coev (see TraceBase). *)
EXTENDS Coev, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- VInit0, Do <- VDo
=============================================================================
