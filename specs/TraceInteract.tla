--------------------------- MODULE TraceInteract ---------------------------
(* Trace validation of recorded executions against Interact (see TraceBase). *)
EXTENDS Interact, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- IInit, Do <- IDo
=============================================================================
