----------------------------- MODULE MCFormula -----------------------------
(* Every text of a few pieces, as a chemical formula.                         *)
EXTENDS Formula, Json
CONSTANTS MaxPieces, Pieces
VARIABLES f
Text == SJoin(f)
Init == f = <<>>
Next == /\ Len(f) < MaxPieces
        /\ \E p \in Pieces : f' = Append(f, p)
        /\ PrintT("@@FORMULA " \o ToJson(SJoin(f')))
Spec == Init /\ [][Next]_f

SameMap(a, b) == FDiff(a, b, "1E-12", "0.0") = ""
Scaled(m, x) == [k \in DOMAIN m |-> FMul(x, m[k])]
Understood == LET p == Parse(Text) IN ~IsStar(p) /\ DOMAIN p # {}
\* numbers of atoms are not negative, and zero only where a number is
InvPositive == Understood => \A k \in DOMAIN Parse(Text) : ~FLt(Parse(Text)[k], Zero)
\* a group may be written for its content, and a number after it multiplies
InvGroup == Understood => /\ SameMap(Parse("(" \o Text \o ")"), Parse(Text))
                          /\ SameMap(Parse("(" \o Text \o ")2"), Scaled(Parse(Text), "2.0"))
                          /\ SameMap(Parse("(" \o Text \o ").5"), Scaled(Parse(Text), "0.5"))
\* writing formulas one after the other adds their atoms
InvSum == \A i \in 1..(Len(f) - 1) :
  LET a == SJoin(SubSeq(f, 1, i)) b == SJoin(SubSeq(f, i + 1, Len(f))) pa == Parse(a) pb == Parse(b) IN
  (~IsStar(pa) /\ ~IsStar(pb) /\ DOMAIN pa # {} /\ DOMAIN pb # {}) =>
    SameMap(Parse(Text), Deep([k \in DOMAIN pa \cup DOMAIN pb |-> FAdd(Get(pa, k, Zero), Get(pb, k, Zero))]))
\* a text that is a formula names only what is written in it
InvNames == Understood => \A k \in DOMAIN Parse(Text) : \E i \in 1..Len(f) : SPrefix(SAt(k, 1), f[i])
=============================================================================
