--------------------------- MODULE TraceEvolvable ---------------------------
(* Trace validation of recorded executions against Evolvable (see TraceBase). *)
EXTENDS Evolvable, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
