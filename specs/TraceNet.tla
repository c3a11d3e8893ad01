------------------------------ MODULE TraceNet ------------------------------
(* Trace validation of recorded executions against Net (see TraceBase). *)
EXTENDS Net, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
