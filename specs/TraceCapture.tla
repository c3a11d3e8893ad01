---------------------------- MODULE TraceCapture ----------------------------
(* Trace validation of recorded executions against Capture (see TraceBase). *)
EXTENDS Capture, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
