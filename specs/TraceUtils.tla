---------------------------- MODULE TraceUtils ----------------------------
(* Trace validation of recorded executions against Utils (see TraceBase). *)
EXTENDS Utils, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- UInit0, Do <- UDo
=============================================================================
