------------------------------ MODULE Maths --------------------------------
(* The functions the fluorescence calculations are built on, each given by    *)
(* the integral or closed form it stands for.                                 *)
EXTENDS Base

\* exp(x) E1(x)
DD(x) == FE1Scaled(x)

\* enhancement inside one layer: a ray absorbed at depth y (m1) starts another one absorbed at depth z < y (muj on the
\* way), whose fluorescence leaves (m2).  Very thin layers are neglected and thick ones treated as infinite.
L0Ok(x) == \A i \in 1..3 : FIsFinite(x[i]) /\ FPos(x[i])
L0Depth(x) == FMul(x[4], x[5])
L0Total(x) == FMul(FAdd(x[1], x[2]), L0Depth(x))
L0Thick(x) == FDiv(FLog(FAdd(One, FDiv(x[1], x[3]))), FMul(x[1], FAdd(x[1], x[2])))
L0Exact(x) == FL0(x[1], x[2], x[3], L0Depth(x))
L0(x) == IF FGt(L0Total(x), "10.0") THEN L0Thick(x)
         ELSE IF FLt(L0Total(x), "0.01") THEN Zero ELSE L0Exact(x)

\* the primitive from which the enhancement between two layers is built
\* x = <<p, q, d1, d2, mu1j, mu2j, mubj dt>>
V(x) ==
  LET p == x[1] IN LET q == x[2] IN LET a == x[5] IN LET b == x[6] IN
  LET h == FSumSeq(<<FMul(a, x[3]), x[7], FMul(b, x[4])>>) IN
  LET s == FAdd(FMul(p, a), FMul(q, b)) IN
  IF FEq(h, Zero)
  THEN FNeg(FDiv(FAdd(FMul(FDiv(b, p), FLog(FAbs(FAdd(One, FDiv(p, b))))), FMul(FDiv(a, q), FLog(FAbs(FSub(One, FDiv(q, a)))))), s))
  ELSE LET t1 == FMul(FDiv(b, FMul(p, s)), DD(FMul(FAdd(One, FDiv(p, b)), h))) IN
       LET t2 == FMul(FDiv(a, FMul(q, s)), DD(FMul(FSub(One, FDiv(q, a)), h))) IN
       LET t3 == FDiv(DD(h), FMul(p, q)) IN
       FMul(FExp(FSub(FSub(FMul(FSub(q, a), x[3]), FMul(FAdd(p, b), x[4])), x[7])), FSub(FAdd(t1, t2), t3))
VAt(x, d1, d2) == V([x EXCEPT ![3] = d1, ![4] = d2])
XByV(x) == FAdd(FSub(FSub(VAt(x, x[3], x[4]), VAt(x, x[3], Zero)), VAt(x, Zero, x[4])), VAt(x, Zero, Zero))

FWHMConst == FMul("2.3548", "2.3548")
FWHM(E, noise, fano, q) == FSqrt(FAdd(FMul(noise, noise), FMul(FMul(E, fano), FMul(FWHMConst, q))))

MathValue(f, x) ==
  CASE f = "E1" -> IF FEq(x[1], Zero) THEN Err ELSE Ok(FE1(x[1]))
    [] f = "En" -> IF FLt(x[1], One) \/ (FEq(x[1], One) /\ FEq(x[2], Zero)) THEN Err
                   ELSE Ok(IF FEq(x[1], One) THEN FE1(x[2]) ELSE FEn(FInt(x[1]), x[2]))
    [] f = "D" -> Ok(IF FEq(x[1], Zero) THEN "inf" ELSE DD(x[1]))
    [] f = "AS51" -> IF FGt(x[1], One) THEN Err ELSE Ok(IF FEq(x[1], Zero) THEN "-0.57721566490153286" ELSE FAdd(FE1(x[1]), FLog(x[1])))
    [] f = "AS56" -> IF FLt(x[1], One) THEN Err ELSE Ok(FMul(x[1], FE1Scaled(x[1])))
    [] f = "L0" -> IF L0Ok(x) THEN Ok(L0(x)) ELSE Err
    [] f = "X" -> Ok(FX(x))
    [] f = "V" -> Ok(V(x))
    [] f = "erf" -> Ok(FErf(x[1]))
    [] f = "erfc" -> Ok(FErfc(x[1]))
    [] f = "fwhm" -> Ok(FWHM(x[1], x[2], x[3], x[4]))
    [] f = "fwhm3" -> Ok(FWHM(x[1], x[2], x[3], "0.00385"))
    [] f = "isNumber" -> Ok(IF x[1] = "nan" THEN 0 ELSE 1)
    [] f = "isFinite" -> Ok(IF FIsFinite(x[1]) THEN 1 ELSE 0)

\* accuracy promised by each function
MathTol(f, x) ==
  CASE f \in {"E1", "AS51"} -> <<"2.0E-6", "3.0E-7">>
    [] f = "En" -> <<"2.0E-6", FMul("3.0E-7", FPow(FMax2(One, x[2]), FSub(x[1], One)))>>
    [] f = "D" -> <<"2.0E-6", "7.0E-7">>
    [] f = "AS56" -> <<"1.0E-7", "5.0E-8">>
    [] f = "L0" -> <<"2.0E-3", IF L0Ok(x) THEN FDiv("1.0E-6", FMul(x[1], x[2])) ELSE Zero>>
    [] f = "X" -> <<"1.0E-4", FDiv("2.0E-6", FMul(x[1], x[2]))>>
    [] f = "V" -> <<"1.0E-4", FDiv("2.0E-6", FMul(x[1], x[2]))>>
    [] f \in {"erf", "erfc"} -> <<"2.0E-7", "2.0E-7">>
    [] OTHER -> <<"1.0E-12", "0.0">>
MathDo(st, e) == [st |-> st, res |-> <<MathValue(e.f, e.x)>>]
=============================================================================
