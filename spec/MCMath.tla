------------------------------- MODULE MCMath -------------------------------
(* Identities of the special functions over a grid, and each value asked of   *)
(* the library.                                                               *)
EXTENDS Maths, Json
CONSTANT Grid
VARIABLES k, a, b, c, d
Steps == IF Grid = "big" THEN {"0.02", "0.05", "0.1", "0.3", "0.6", "1.0", "1.7", "3.0", "4.5", "9.0", "40.0"}
         ELSE {"0.05", "0.3", "1.0", "3.0", "9.0"}
Few == IF Grid = "big" THEN {"0.1", "0.4", "1.0", "2.5"} ELSE {"0.2", "1.0", "2.5"}
vars == <<k, a, b, c, d>>
Init == \/ k = "E" /\ a \in Steps \cup Few /\ b = Zero /\ c = Zero /\ d = Zero
        \/ k = "L" /\ a \in Steps /\ b \in Steps /\ c \in Steps /\ d \in Few
        \/ k = "X" /\ a \in Few /\ b \in Few /\ c \in Few /\ d \in {"0.0", "0.5"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Eq(x, y) == FNear(x, y, "1E-8", "1E-11")
InvE == k = "E" =>
  /\ FLt(FDiv(One, FAdd(a, One)), DD(a)) /\ FLt(DD(a), FDiv(One, a))                  \* AS 5.1.19
  /\ FLt(FMul("0.5", FLog(FAdd(One, FDiv(2, a)))), DD(a)) /\ FLt(DD(a), FLog(FAdd(One, FDiv(One, a))))   \* AS 5.1.20
  /\ \A n \in 1..3 : FNear(FMul(n, FEn(n + 1, a)), FSub(FExp(FNeg(a)), FMul(a, IF n = 1 THEN FE1(a) ELSE FEn(n, a))), "1E-6", "1E-9")
  /\ FNear(FAdd(FErf(a), FErfc(a)), One, "1E-12", "1E-12")
\* closed form of the enhancement inside a layer; more depth, more enhancement, up to that of an infinite layer
L == <<a, b, c, One, d>>
ClosedL0 ==
  LET m12 == FAdd(a, b)
      t == FAdd(FSub(FDiv(DD(FMul(FSub(c, b), d)), FMul(b, m12)), FDiv(DD(FMul(c, d)), FMul(a, b))), FDiv(DD(FMul(FAdd(c, a), d)), FMul(a, m12)))
  IN FSumSeq(<<FMul(t, FExp(FNeg(FMul(FAdd(a, c), d)))), FDiv(FLog(FAdd(One, FDiv(a, c))), FMul(a, m12)),
               FMul(FDiv(FExp(FNeg(FMul(m12, d))), FMul(b, m12)), FLog(FAbs(FSub(One, FDiv(b, c)))))>>)
InvL == k = "L" =>
  /\ (b # c /\ FLt(FMul(b, d), "30.0")) => FNear(L0Exact(L), ClosedL0, "1E-6", "1E-9")
  /\ FLt(L0Exact(L), L0Exact([L EXCEPT ![5] = FMul(2, d)])) \/ FNear(L0Exact(L), L0Thick(L), "1E-7", "1E-9")
  /\ FLe(L0Exact(L), FMul(L0Thick(L), "1.0000001"))
\* the enhancement between two layers is an integral of products: additive in each depth, and given by V
XX == <<a, b, c, One, "1.5", "2.0", d>>
InvX == k = "X" =>
  /\ b # "1.5" => FNear(FX(XX), XByV(XX), "1E-6", "1E-9")
  /\ FPos(FX(XX)) /\ FLt(FX([XX EXCEPT ![7] = FAdd(d, One)]), FX(XX))
  /\ FNear(FX([XX EXCEPT ![4] = 2]), FAdd(FX(XX), FMul(FExp(FNeg(a)), FX([XX EXCEPT ![7] = FAdd(d, 2)]))), "1E-6", "1E-10")
=============================================================================
