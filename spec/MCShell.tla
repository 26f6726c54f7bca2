------------------------------ MODULE MCShell ------------------------------
(* The de-excitation specification itself, checked exhaustively: every table  *)
(* built from a few labels and values.                                        *)
EXTENDS Shell
VARIABLES s, step
vars == <<s, step>>
Vals == {"0.0", "0.5", "2.0"}
RadLabels == {"L1M2", "l1n3", "L1P23"}
NonLabels == {"L1-M1M1", "L1-L2M1", "L1-L3M3", "l1-m2l3"}
Yields == {"0.0", "0.25", "0.5"}
Seqs(L) == {SetToSortSeq(D, SLt) : D \in SUBSET L}
Init == s = NewShell("L1") /\ step = 0
\* an optional supplied total is the sum of the supplied rates and of others that were not listed
WithTotal(ls, f, t) == IF t = "none" THEN <<ls, [i \in 1..Len(ls) |-> f[ls[i]]]>>
                       ELSE <<Append(ls, "TOTAL"), Append([i \in 1..Len(ls) |-> f[ls[i]]], FAdd(t, FSumSeq([i \in 1..Len(ls) |-> f[ls[i]]])))>>
SetRad == \E ls \in Seqs(RadLabels) : \E f \in [Range(ls) -> Vals] : s' = [s EXCEPT !.rad = RadMap("L1", ls, [i \in 1..Len(ls) |-> f[ls[i]]])]
SetNonrad == \E ls \in Seqs(NonLabels) : \E f \in [Range(ls) -> Vals] : \E t \in {"none", "0.0", "1.0"} :
               LET p == WithTotal(ls, f, t) IN s' = [s EXCEPT !.nonrad = NonradMap(p[1], p[2])]
SetConst == \E f \in [{"omega", "f12", "f13"} -> Yields] : FLe(FSumMap(f), One) /\ s' = [s EXCEPT !.const = f @@ @]
Next == \/ step = 0 /\ SetNonrad /\ step' = 1
        \/ step = 1 /\ SetConst /\ step' = 2
        \/ step = 1 /\ SetRad /\ step' = 2
Spec == Init /\ [][Next]_vars

Close(a, b) == FNear(a, b, "1E-12", "1E-12")
Sum1(m) == DOMAIN m = {} \/ Close(FSumMap(m), One)
AllPos(m) == \A k \in DOMAIN m : FPos(m[k])
\* the emission ratios are positive and add to one
InvFluo == LET f == FluoRatios(s) IN Sum1(f) /\ AllPos(f)
\* every radiationless transition is either Auger or of exactly one Coster-Kronig group, and each group adds to one
InvPartition == \A k \in DOMAIN s.nonrad \ {Total} :
  FPos(s.nonrad[k]) => Cardinality({i \in CKTargets(s.name) : k \in CKGroup(s, i)}) + (IF k \in AugerLines(s) THEN 1 ELSE 0) = 1
InvCK == LET c == CKRatios(s) IN \A f \in DOMAIN c : Sum1(Without(c[f], {Total}))
InvAuger == HasNonrad(s) => LET a == AugerRatios(s) IN
              FLe(Zero, AugerTotal(s)) /\ (AugerLines(s) # {} => FLe(FSumMap(Without(a, {Total})), "1.000000000001"))
\* a vacancy is transferred in each channel at most as often as the channel happens, twice when both final holes are there
InvTransfer == YieldsValid(s) => \A d \in {"L2", "L3", "M1", "M2", "M3"} :
   LET t == TransferRatios(s, d) IN
   /\ FLe(t["fluorescence"], s.const["omega"])
   /\ (HasNonrad(s) /\ AugerLines(s) # {} => FLe(t["auger"], FMul("2.000001", FSub(One, ConstSum(s)))))
   /\ \A k \in DOMAIN t \ {"fluorescence", "auger"} : FLe(t[k], FMul("2.000001", s.const[k]))
\* the probabilities of all channels add to one
InvChannels == YieldsValid(s) => Close(FAdd(ConstSum(s), FSub(One, ConstSum(s))), One)
=============================================================================
