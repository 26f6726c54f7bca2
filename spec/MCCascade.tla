----------------------------- MODULE MCCascade -----------------------------
(* The vacancy cascade as specified, checked over every small element: two    *)
(* values for each yield, every choice of a few transitions.                  *)
EXTENDS Element
CONSTANTS Rates   \* values of the first transition of each shell
VARIABLES el, phase
vars == <<el, phase>>
Base0 == SetBinding(NewElement("X", 30), [x \in {"K", "L1", "L2", "L3"} |-> CASE x = "K" -> "9.0" [] x = "L1" -> "1.2" [] x = "L2" -> "1.1" [] x = "L3" -> "1.0"])
RadSets == [K |-> <<"KL2", "KL3">>, L1 |-> <<"L1M2", "L1M3">>, L2 |-> <<"L2M1">>, L3 |-> <<"L3M5">>]
NonSets == [K |-> <<"K-L1L2", "K-L3L3">>, L1 |-> <<"L1-L2M1", "L1-L3M3", "L1-M1M1">>, L2 |-> <<"L2-L3M1", "L2-M1M1">>, L3 |-> <<"L3-M1M1">>]
Const(s, y) == [k \in ConstKeys(s) |-> y]
Init == el = Base0 /\ phase = 1
Set(s, r, n, y) ==
  [el EXCEPT !.shells[s].rad = RadMap(s, RadSets[s], r), !.shells[s].nonrad = NonradMap(NonSets[s], n), !.shells[s].const = Const(s, y)]
Next == /\ phase <= 4
        /\ LET s == ShellOrder[phase] IN
           \E y \in {"0.0", "0.3"} : \E a \in Rates : \E b \in Rates :
             el' = Set(s, [i \in 1..Len(RadSets[s]) |-> IF i = 1 THEN a ELSE "2.0"], [i \in 1..Len(NonSets[s]) |-> IF i = 1 THEN b ELSE "1.0"], y)
        /\ phase' = phase + 1
Spec == Init /\ [][Next]_vars
Unit(s) == [x \in {s} |-> One]
Close(a, b) == FNear(a, b, "1E-10", "1E-13")
Four == {"K", "L1", "L2", "L3"}
\* the cascade is linear in the initial vacancies, only adds vacancies, and only in outer shells
InvLinear == phase = 5 =>
  LET c == [s \in Four |-> Cascade(el, Unit(s))]
      d == [K |-> "0.5", L1 |-> "2.0", L2 |-> "0.0", L3 |-> "1.5"]
      r == Cascade(el, d)
  IN \A t \in Four : Close(r[t], FSumSeq(<<FMul(d["K"], c["K"][t]), FMul(d["L1"], c["L1"][t]), FMul(d["L2"], c["L2"][t]), FMul(d["L3"], c["L3"][t])>>))
Index(s) == CHOOSE i \in 1..9 : ShellOrder[i] = s
InvOutwards == phase = 5 => \A s \in Four : LET c == Cascade(el, Unit(s)) IN
  \A t \in Four : (Index(t) < Index(s) => ~FPos(c[t])) /\ (t = s => Close(c[t], One))
\* emitted lines: per shell, the rates add to vacancies times yield (or are none when the shell has no lines)
InvRates == phase = 5 =>
  LET c == Cascade(el, Unit("K"))
      m == Lines(el, Unit("K"), TRUE, TRUE)
  IN \A s \in Four : LET L == {l \in DOMAIN m : LineTo(l) = s} IN
       FluoRatios(el.shells[s]) = EmptyMap \/ Close(FSumSeq([i \in 1..Cardinality(L) |-> m[SetToSeq(L)[i]].rate]), FMul(c[s], el.shells[s].const["omega"]))
InvEnergies == phase = 5 => LET m == Lines(el, Unit("K"), TRUE, TRUE) IN \A l \in DOMAIN m : FPos(m[l].energy) /\ FLt(m[l].energy, el.be[LineTo(l)])
=============================================================================
