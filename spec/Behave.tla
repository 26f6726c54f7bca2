------------------------------- MODULE Behave -------------------------------
(* Behaviours of the specification for replay: from every state that a set of *)
(* calls can reach, every call is made once; the history of calls leading     *)
(* there is printed.                                                          *)
EXTENDS LibSystem
CONSTANTS Depth
VARIABLES st, hist
Run(s, ops) == FoldLeft(LAMBDA x, e : Do(x, e).st, s, ops)
StartIn(ops) == st = Run(InitState, ops) /\ hist = <<>>
Step(Ops) ==
  /\ Len(hist) < Depth
  /\ \E e \in Ops :
       /\ st' = Do(st, e).st
       /\ hist' = Append(hist, e)
       /\ PrintT("@@HIST " \o ToJson(hist'))
State == st
=============================================================================
