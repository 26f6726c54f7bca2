----------------------------- MODULE TraceBase -----------------------------
(* Conformance: is the recorded execution of the library a behaviour of the   *)
(* specification?  One line per public call with its arguments and its        *)
(* result; the specification's transition gives the admissible results.       *)
(* A rejected call is reported and the rest of its script (up to the next     *)
(* reset) is passed over, so that the rest of the trace is still checked.     *)
EXTENDS Flt, Naturals, Sequences, TLC, Json
CONSTANTS Trace, N, InitState, Do(_, _), Tol(_)
VARIABLES l, st, skip, bad
vars == <<l, st, skip, bad>>

Init == l = 1 /\ st = InitState /\ skip = FALSE /\ bad = 0

Agrees(alts, obs, tol) == \E i \in 1..Len(alts) : FDiff(alts[i], obs, tol[1], tol[2]) = ""
\* the outcome of a call, as one value: the state after it, and whether its result is admissible
Outcome(s, e) ==
  LET r == Do(s, e)
      tol == Tol(e)
      alts == Deep(r.res)
      ok == Agrees(alts, e.res, tol)
  IN [ok |-> ok, st |-> IF ok THEN Deep(r.st) ELSE InitState,
      why |-> IF ok THEN "" ELSE ToJson([line |-> l, op |-> e.op, why |-> FDiff(alts[1], e.res, tol[1], tol[2]), alternatives |-> Len(alts)])]

Step ==
  /\ l <= N
  /\ IF Trace[l].op = "reset" THEN st' = InitState /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<st, skip, bad>>
     ELSE \E o \in {Outcome(st, Trace[l])} :
            /\ st' = o.st
            /\ IF o.ok THEN UNCHANGED <<skip, bad>>
               ELSE PrintT("@@MISMATCH " \o o.why) /\ skip' = TRUE /\ bad' = bad + 1
  /\ l' = l + 1
  /\ (l = N => PrintT("@@DONE " \o ToString(N) \o " bad " \o ToString(bad') \o " open " \o ToString(FOpen(l))))
Spec == Init /\ [][Step]_vars
Position == l
=============================================================================
