#!/usr/bin/env python3
"""Writes specs/Trace<Sys>.tla wrappers: mktrace.py Sys..."""
import sys, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
for m in sys.argv[1:]:
    n = "Trace" + m
    dash = "-" * ((76 - len(n) - 8) // 2)
    with open(os.path.join(d, n + ".tla"), "w") as f:
        f.write("""%s MODULE %s %s
(* Trace validation of recorded executions against %s (see TraceBase). *)
EXTENDS %s, Json, IOUtils
VARIABLES vTid, vIdx, vState
ASSUME TLCSet(77, JsonDeserialize(IOEnv.TRACES))
INSTANCE TraceBase
=============================================================================
""" % (dash, n, dash, m, m))
