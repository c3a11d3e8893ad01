---------------------------- MODULE TraceMaze ----------------------------
(* Trace validation of recorded executions against Maze (see TraceBase). *)
EXTENDS Maze, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase WITH Init0 <- MInit, Do <- MDo
=============================================================================
