----------------------------- MODULE CacheModel -----------------------------
(* Implementation-shaped model of the two caches of an element: stored        *)
(* calculations per energy, and the stored cascade.  Tables are reduced to    *)
(* version numbers.  The theorem: whatever the history, an answer served from *)
(* a cache is the answer that would be computed now - provided the cascade    *)
(* cache is reset by the caller where its documentation asks for it.          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Energies, Capacity, MaxVersion, MaxOps
VARIABLES photo,      \* version of the photon tables
          rates,      \* version of transitions, yields and binding energies
          mu, exc,    \* stored calculations: energy -> versions used
          on,         \* use of stored calculations enabled
          cas,        \* stored cascade: 0 none, else 1 + version of the rates used
          casOn, ops
vars == <<photo, rates, mu, exc, on, cas, casOn, ops>>
None == [x \in {} |-> 0]
Init == photo = 0 /\ rates = 0 /\ mu = None /\ exc = None /\ on = FALSE /\ cas = 0 /\ casOn = FALSE /\ ops = 0
\* what a computation made now would be based on
CasNow == IF casOn /\ cas # 0 THEN cas - 1 ELSE rates
FreshMu == photo
FreshExc == <<photo, CasNow>>
MuAnswer(E) == IF on /\ E \in DOMAIN mu THEN mu[E] ELSE FreshMu
ExcAnswer(E) == IF on /\ E \in DOMAIN exc THEN exc[E] ELSE FreshExc
Stale == casOn /\ cas # 0 /\ cas - 1 # rates
Tick == ops < MaxOps /\ ops' = ops + 1

ClearAll == mu' = None /\ exc' = None
SetPhoto == Tick /\ photo < MaxVersion /\ photo' = photo + 1 /\ ClearAll /\ UNCHANGED <<rates, on, cas, casOn>>
SetRates == Tick /\ rates < MaxVersion /\ rates' = rates + 1 /\ ClearAll /\ UNCHANGED <<photo, on, cas, casOn>>
SetYields == Tick /\ rates < MaxVersion /\ rates' = rates + 1 /\ ClearAll /\ cas' = 0 /\ UNCHANGED <<photo, on, casOn>>
Store(m, E, v) == [x \in DOMAIN m \cup {E} |-> IF x = E THEN v ELSE m[x]]
RECURSIVE FillFrom(_, _, _, _)
FillFrom(m, Es, i, v) == IF i > Len(Es) THEN m ELSE FillFrom(IF Es[i] \in DOMAIN m \/ Cardinality(DOMAIN m) >= Capacity THEN m ELSE Store(m, Es[i], v), Es, i + 1, v)
Lists == {<<>>} \cup {<<a>> : a \in Energies} \cup {<<a, b>> : a \in Energies, b \in Energies}
Fill == Tick /\ ~Stale /\ \E Es \in Lists : mu' = FillFrom(None, Es, 1, FreshMu) /\ exc' = FillFrom(None, Es, 1, FreshExc) /\ UNCHANGED <<photo, rates, on, cas, casOn>>
Update == Tick /\ ~Stale /\ \E Es \in Lists : mu' = FillFrom(mu, Es, 1, FreshMu) /\ exc' = FillFrom(exc, Es, 1, FreshExc) /\ UNCHANGED <<photo, rates, on, cas, casOn>>
Clear == Tick /\ ClearAll /\ UNCHANGED <<photo, rates, on, cas, casOn>>
Enable == Tick /\ on' \in BOOLEAN /\ UNCHANGED <<photo, rates, mu, exc, cas, casOn>>
CasEnable == Tick /\ \/ casOn' = FALSE /\ UNCHANGED cas
                     \/ casOn' = TRUE /\ cas' = (IF cas = 0 THEN rates + 1 ELSE cas)
             /\ UNCHANGED <<photo, rates, mu, exc, on>>
CasFill == Tick /\ cas' = rates + 1 /\ UNCHANGED <<photo, rates, mu, exc, on, casOn>>
CasEmpty == Tick /\ cas' = 0 /\ UNCHANGED <<photo, rates, mu, exc, on, casOn>>
Next == SetPhoto \/ SetRates \/ SetYields \/ Fill \/ Update \/ Clear \/ Enable \/ CasEnable \/ CasFill \/ CasEmpty
Spec == Init /\ [][Next]_vars

Transparent == \A E \in Energies : MuAnswer(E) = photo /\ (~Stale => ExcAnswer(E) = <<photo, rates>>)
Bounded == Cardinality(DOMAIN mu) <= Capacity /\ DOMAIN mu = DOMAIN exc
YieldsNeverStale == [][SetYields => cas' = 0]_vars
=============================================================================
