---------------------------- MODULE EscapeModel ----------------------------
(* Implementation-shaped model of the escape cache of a library: what is      *)
(* stored, and for which request.  A request stands for a composition, limits *)
(* and geometry.  The theorem: whatever the history, the answer is that of    *)
(* the request made and of the data in force.  Every history is printed, and  *)
(* replayed into the library.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Requests, Energies, Versions, MaxOps
VARIABLES on, key, stored, ver, ops
vars == <<on, key, stored, ver, ops>>
None == [x \in {} |-> 0]
Init == on = FALSE /\ key = "" /\ stored = None /\ ver = 0 /\ ops = <<>>
Compatible(r) == on /\ stored # None /\ key = r
Answer(r, E) == IF Compatible(r) /\ E \in DOMAIN stored THEN stored[E] ELSE <<r, ver>>
Did(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o) /\ PrintT("@@HIST " \o ToJson(ops'))
Enable == \E f \in {0, 1} : on' = (f = 1) /\ Did([what |-> "escapeEnable", flag |-> f]) /\ UNCHANGED <<key, stored, ver>>
Clear == stored' = None /\ Did([what |-> "escapeClear"]) /\ UNCHANGED <<on, key, ver>>
\* what is not stored yet is computed now; what is stored for another request is dropped first
Store(r, m, q) == IF q = <<>> THEN m
                  ELSE [E \in DOMAIN m \cup {q[i] : i \in 1..Len(q)} |-> IF E \in DOMAIN m THEN m[E] ELSE <<r, ver>>]
Update == \E r \in Requests, q \in {<<>>} \cup {<<E>> : E \in Energies} \cup {<<E, F>> : E, F \in Energies} :
            /\ stored' = Store(r, IF Compatible(r) THEN stored ELSE None, q)
            /\ key' = IF q = <<>> THEN key ELSE r
            /\ Did([what |-> "escapeUpdate", request |-> r, energies |-> q])
            /\ UNCHANGED <<on, ver>>
\* new data for an element
Change == ver < Versions /\ ver' = ver + 1 /\ stored' = None /\ Did([what |-> "change", version |-> ver']) /\ UNCHANGED <<on, key>>
Next == Enable \/ Clear \/ Update \/ Change
Spec == Init /\ [][Next]_vars
Transparent == \A r \in Requests, E \in Energies : Answer(r, E) = <<r, ver>>
\* only requests of one kind are stored at a time
OneKind == \A E \in DOMAIN stored : stored[E] = <<key, ver>>
Seen == <<on, key, stored, ver>>
=============================================================================
