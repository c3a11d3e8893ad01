---------------------------- MODULE TraceDensity ---------------------------
(* Trace validation of recorded executions against Density (see TraceBase). *)
EXTENDS Density, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- DInit0, Do <- DDo
=============================================================================
