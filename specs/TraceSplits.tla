---------------------------- MODULE TraceSplits ----------------------------
(* Trace validation of recorded executions against Splits (see TraceBase). *)
EXTENDS Splits, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
