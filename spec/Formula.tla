------------------------------ MODULE Formula ------------------------------
(* Chemical formulas.                                                         *)
(*   formula ::= item item*      item ::= (symbol | "(" formula ")") [number] *)
(*   symbol ::= upper lower*     number ::= digits [. digits] | . digits      *)
EXTENDS Base

Star == [any |-> TRUE]
IsStar(x) == "any" \in DOMAIN x
AddMap(a, b, f) ==
  Deep([k \in DOMAIN a \cup DOMAIN b |->
     IF k \notin DOMAIN b THEN a[k] ELSE IF k \notin DOMAIN a THEN FMul(f, b[k]) ELSE FAdd(a[k], FMul(f, b[k]))])

RECURSIVE RunEnd(_, _, _)
\* the last position of the run of characters of set K that begins at i (i - 1 if there is none)
RunEnd(c, i, K) == IF i <= Len(c) /\ c[i] \in K THEN RunEnd(c, i + 1, K) ELSE i - 1
NumChars == Digits \cup {"."}
\* the number at i: [ok, value, next]; one if there is none
NumberAt(c, i) ==
  LET j == RunEnd(c, i, NumChars)
      t == SubSeq(c, i, j)
      dots == Cardinality({k \in 1..Len(t) : t[k] = "."})
  IN IF j < i THEN [ok |-> TRUE, value |-> One, next |-> i]
     ELSE [ok |-> dots <= 1 /\ \E k \in 1..Len(t) : t[k] \in Digits, value |-> SJoin(t), next |-> j + 1]

Bad == [ok |-> FALSE, m |-> EmptyMap, next |-> 0]
RECURSIVE Items(_, _, _, _)
\* reads items from i on; depth is the number of open groups
Items(c, i, depth, m) ==
  IF i > Len(c) THEN IF depth = 0 THEN [ok |-> TRUE, m |-> m, next |-> i] ELSE Bad
  ELSE IF c[i] = ")" THEN IF depth > 0 /\ DOMAIN m # {} THEN [ok |-> TRUE, m |-> m, next |-> i + 1] ELSE Bad
  ELSE IF c[i] = "(" THEN
         LET g == Items(c, i + 1, depth + 1, EmptyMap) IN
         IF ~g.ok THEN Bad
         ELSE LET n == NumberAt(c, g.next) IN IF n.ok THEN Items(c, n.next, depth, AddMap(m, g.m, n.value)) ELSE Bad
  ELSE IF c[i] \in UpperSet THEN
         LET e == RunEnd(c, i + 1, LowerSet)
             s == SJoin(SubSeq(c, i, e))
             n == NumberAt(c, e + 1)
         IN IF n.ok THEN Items(c, n.next, depth, AddMap(m, s :> One, n.value)) ELSE Bad
  ELSE Bad

\* numbers of atoms by symbol; the empty map for what is plainly not a formula; Star: nothing promised
Parse(f) ==
  LET c == SChars(f)
      count(x) == Cardinality({i \in 1..Len(c) : c[i] = x})
      r == Items(c, 1, 0, EmptyMap)
  IN IF Len(c) = 0 THEN EmptyMap
     ELSE IF c[1] \in LowerSet \cup Digits \/ count("(") # count(")") \/ count(" ") > 0 THEN EmptyMap
     ELSE IF r.ok THEN r.m
     \* a group without content, or beginning with a small letter or a digit
     ELSE IF \E i \in 1..(Len(c) - 1) : c[i] = "(" /\ c[i + 1] \in LowerSet \cup Digits \cup {")"} THEN EmptyMap
     ELSE Star
=============================================================================
