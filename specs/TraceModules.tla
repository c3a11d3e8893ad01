---------------------------- MODULE TraceModules ----------------------------
(* Trace validation of recorded executions against Modules (see TraceBase). *)
EXTENDS Modules, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
