---------------------------- MODULE TraceControl ---------------------------
(* Trace validation of recorded executions against Control (see TraceBase). *)
EXTENDS Control, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- CInit0, Do <- CDo
=============================================================================
