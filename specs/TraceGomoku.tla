---------------------------- MODULE TraceGomoku ----------------------------
(* Trace validation of recorded executions against Gomoku (see TraceBase). *)
EXTENDS Gomoku, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
