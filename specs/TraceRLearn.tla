---------------------------- MODULE TraceRLearn ----------------------------
(* Trace validation of recorded executions against RLearn (see TraceBase). *)
EXTENDS RLearn, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- RInit, Do <- RDo
=============================================================================
