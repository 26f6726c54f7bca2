------------------------------ MODULE TraceLib ------------------------------
(* Traces of element libraries and everything built on them.                  *)
EXTENDS LibSystem, TraceInput
VARIABLES l, st, skip, bad
INSTANCE TraceBase
=============================================================================
