---------------------------- MODULE TraceAnalysis ---------------------------
(* Trace validation of recorded executions against Analysis (see TraceBase). *)
EXTENDS Analysis, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- AInit0, Do <- ADo
=============================================================================
