---------------------------- MODULE TraceEvolino ---------------------------
(* Trace validation of recorded executions against Evolino (see TraceBase). *)
EXTENDS Evolino, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- EInit0, Do <- EDo
=============================================================================
