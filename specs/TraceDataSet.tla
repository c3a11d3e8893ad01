---------------------------- MODULE TraceDataSet ----------------------------
(* Trace validation of recorded executions against DataSet (see TraceBase). *)
EXTENDS DataSet, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
