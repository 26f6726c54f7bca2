-------------------------------- MODULE Flt --------------------------------
(* Real arithmetic and text primitives for executable specifications.         *)
(* A number is a string holding a decimal double, or an integer.  TLC         *)
(* evaluates these operators with the Java methods of the same names in       *)
(* java/Flt.java; the definitions below only say what they stand for.         *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL Num == CHOOSE r \in STRING : TRUE
FAdd(a, b) == Num      \* a + b
FSub(a, b) == Num      \* a - b
FMul(a, b) == Num      \* a * b
FDiv(a, b) == Num      \* a / b
FNeg(a) == Num
FAbs(a) == Num
FExp(a) == Num
FLog(a) == Num
FSqrt(a) == Num
FPow(a, b) == Num
FSinDeg(a) == Num      \* sine of an angle in degrees
FPi == Num
FLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
FLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE r \in BOOLEAN : TRUE
FIsFinite(a) == CHOOSE r \in BOOLEAN : TRUE
FCanon(a) == Num       \* the canonical text of the number
FInt(a) == CHOOSE r \in Nat : TRUE       \* integer part
FSumSeq(s) == Num      \* sum of a sequence
FLowerBound(s, x) == CHOOSE r \in Nat : TRUE   \* first i with s[i] >= x, else Len(s) + 1
FLogLog(x0, y0, x1, y1, x) == Num        \* log-log interpolation (or extrapolation) at x
FNear(a, b, rel, abs) == CHOOSE r \in BOOLEAN : TRUE  \* |a-b| <= rel*max(|a|,|b|) + abs
FOpen(x) == CHOOSE n \in Nat : TRUE   \* how many calls of FDiff so far predicted "*"
FDiff(a, b, rel, abs) == CHOOSE r \in STRING : TRUE   \* "" iff the structures agree, numbers within tolerance
SChars(s) == CHOOSE r \in Seq(STRING) : TRUE   \* characters of a string
SJoin(s) == CHOOSE r \in STRING : TRUE         \* concatenation of a sequence of strings
SLt(a, b) == CHOOSE r \in BOOLEAN : TRUE       \* bytewise order of strings
SCode(c) == CHOOSE r \in Nat : TRUE            \* code of the first character
SNumPrefix(s) == CHOOSE r \in Seq(STRING) : TRUE  \* <<value, length>> of the longest numeric prefix
FE1(x) == Num          \* integral_x^inf exp(-t)/t dt (principal value for x < 0)
FE1Scaled(x) == Num    \* exp(x) E1(x)
FEn(n, x) == Num       \* integral_1^inf exp(-x t)/t^n dt
FL0(m1, m2, mj, d) == Num  \* integral over 0 < z < y < d of exp(-m2 z - m1 y) E1(mj (y - z))
FX(a) == Num           \* a = <<p, q, d1, d2, a, b, t>>: integral over y < d1, x < d2 of exp(q y - p x) E1(a y + t + b x)
\* the function from the keys to the sums, part by part, of the sequences of numbers standing for them
FGroup(keys, vals) == CHOOSE r \in Seq(STRING) : TRUE
\* v, every part of it evaluated once
Deep(v) == v
Memo(k, v) == v         \* computed once for each text k
FErf(x) == Num
FErfc(x) == Num
=============================================================================
