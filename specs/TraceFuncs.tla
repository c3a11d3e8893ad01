---------------------------- MODULE TraceFuncs -----------------------------
(* Trace validation of recorded executions against Funcs (see TraceBase). *)
EXTENDS Funcs, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- XInit0, Do <- XDo
=============================================================================
