----------------------------- MODULE TraceTrain -----------------------------
(* Trace validation of recorded executions against Train (see TraceBase). *)
EXTENDS Train, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- TInit0, Do <- TDo
=============================================================================
