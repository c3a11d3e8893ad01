---------------------------- MODULE TraceOptim ----------------------------
(* Trace validation of recorded executions against Optim (see TraceBase). *)
EXTENDS Optim, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- OInit0, Do <- ODo
=============================================================================
