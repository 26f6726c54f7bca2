------------------------------- MODULE Trace -------------------------------
(* Traces of elements, shells, files, beams, tables and functions.            *)
EXTENDS System, TraceInput
VARIABLES l, st, skip, bad
INSTANCE TraceBase
=============================================================================
