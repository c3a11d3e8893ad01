---------------------------- MODULE TracePareto ----------------------------
(* Trace validation of recorded executions against Pareto (see TraceBase). *)
EXTENDS Pareto, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- GInit0, Do <- PDo
=============================================================================
