-------------------------------- MODULE Base --------------------------------
(* Maps, sequences and sums shared by every module of the specification.      *)
EXTENDS Flt, Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Has(e, k) == k \in DOMAIN e
Get(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d

EmptyMap == [x \in {} |-> 0]
Put(m, k, v) == Deep([x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]])
Without(m, K) == [x \in DOMAIN m \ K |-> m[x]]
Only(m, K) == [x \in DOMAIN m \cap K |-> m[x]]
\* a later entry of the same key replaces an earlier one
MapOf(keys, vals) ==
  LET q == Deep(keys) v == Deep(vals) IN
  Deep([k \in Range(q) |-> v[CHOOSE i \in 1..Len(q) : q[i] = k /\ \A j \in (i+1)..Len(q) : q[j] # k]])
Image(m) == {m[k] : k \in DOMAIN m}

\* results of a call
Ok(v) == [ok |-> v]
Err == [err |-> "*"]
\* an object left in an unspecified state by a refused call
Void == [void |-> TRUE]
IsVoid(x) == "void" \in DOMAIN x

\* sums
FSumSet(S, f(_)) == LET q == SetToSeq(S) IN FSumSeq([i \in 1..Len(q) |-> f(q[i])])
FSumMap(m) == LET K == SetToSeq(DOMAIN m) IN FSumSeq([i \in 1..Len(K) |-> m[K[i]]])
FSumOver(S, m) == LET K == SetToSeq(S) IN FSumSeq([i \in 1..Len(K) |-> m[K[i]]])
FMax2(a, b) == IF FLt(a, b) THEN b ELSE a
FMin2(a, b) == IF FLt(a, b) THEN a ELSE b
FPos(a) == FLt("0.0", a)
FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
One == "1.0"
Zero == "0.0"

\* strings
SPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
SSuffix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
SAt(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSet == Range(LowerSeq)
UpperSet == Range(UpperSeq)
UpOf == [c \in LowerSet |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
LowOf == [c \in UpperSet |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
UpChar(c) == IF c \in LowerSet THEN UpOf[c] ELSE c
LowChar(c) == IF c \in UpperSet THEN LowOf[c] ELSE c
SUpper(s) == LET c == Deep(SChars(s)) IN SJoin([i \in 1..Len(c) |-> UpChar(c[i])])
SLower(s) == LET c == Deep(SChars(s)) IN SJoin([i \in 1..Len(c) |-> LowChar(c[i])])
\* ascending, without repetition
SortedStrings(S) == SetToSortSeq(S, SLt)
=============================================================================
