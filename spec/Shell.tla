------------------------------- MODULE Shell -------------------------------
(* De-excitation tables of one (sub)shell: what is stored, how the emission,  *)
(* Auger and Coster-Kronig branching ratios follow from it, and where a       *)
(* vacancy goes next.                                                         *)
EXTENDS Base

ShellNames == {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"}
ShellOrder == <<"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5">>
MainOf(n) == SAt(n, 1)
SubOf(n) == IF n = "K" THEN 0 ELSE CHOOSE i \in 1..5 : SAt(n, 2) = ToString(i)
MaxSub(n) == IF MainOf(n) = "L" THEN 3 ELSE IF MainOf(n) = "M" THEN 5 ELSE 0
Total == "TOTAL"

\* Coster-Kronig partners of a subshell: the higher subshells of the same main shell
CKTargets(n) == {i \in 1..MaxSub(n) : i > SubOf(n)}
CKKey(n, i) == "f" \o SAt(n, 2) \o ToString(i)
ConstKeys(n) == {"omega"} \cup {CKKey(n, i) : i \in CKTargets(n)}

NewShell(n) == [name |-> n, const |-> [k \in ConstKeys(n) |-> Zero], rad |-> EmptyMap, nonrad |-> EmptyMap]

\* ---- emission lines: canonical labels, normalised ratios
LineKey(n, label) ==
  LET u == SUpper(label)
      v == IF Len(u) = 2 THEN u \o "2" ELSE u
  IN IF Len(v) = 5 /\ v # Total
     THEN IF SAt(v, 4) \in Digits /\ SAt(v, 5) \in Digits THEN SubSeq(v, 1, 4) ELSE "?"
     ELSE IF SPrefix(n, v) \/ v = Total THEN v ELSE "?"
RadOk(n, labels) == \A i \in 1..Len(labels) : LineKey(n, labels[i]) # "?"
RadMap(n, labels, values) == MapOf([i \in 1..Len(labels) |-> LineKey(n, labels[i])], values)

\* a supplied total plays no role: the ratios of the supplied lines always add to one
FluoRatios(s) ==
  LET L == DOMAIN s.rad \ {Total}
      sum == FSumOver(L, s.rad)
  IN Deep([k \in {x \in L : FPos(s.rad[x])} |-> FDiv(s.rad[k], sum)])

\* ---- radiationless transitions
NonradMap(labels, values) ==
  LET m == MapOf([i \in 1..Len(labels) |-> SUpper(labels[i])], values)
  IN IF Total \in DOMAIN m THEN m ELSE Put(m, Total, FSumMap(m))

CKGroup(s, i) ==
  LET pre == s.name \o "-" \o MainOf(s.name) \o ToString(i)
  IN {k \in DOMAIN s.nonrad : k # Total /\ FPos(s.nonrad[k]) /\ SPrefix(pre, k)}
CKLines(s) == UNION {CKGroup(s, i) : i \in CKTargets(s.name)}
AugerLines(s) == {k \in DOMAIN s.nonrad : k # Total /\ FPos(s.nonrad[k])} \ CKLines(s)
HasNonrad(s) == Total \in DOMAIN s.nonrad

CKRatios(s) ==
  IF ~HasNonrad(s) THEN EmptyMap
  ELSE Deep([f \in {CKKey(s.name, i) : i \in CKTargets(s.name)} |->
          LET i == CHOOSE j \in CKTargets(s.name) : CKKey(s.name, j) = f
              g == CKGroup(s, i)
              sum == FSumOver(g, s.nonrad)
          IN [k \in g \cup {Total} |-> IF k = Total THEN sum ELSE FDiv(s.nonrad[k], sum)]])
AugerTotal(s) == FSub(s.nonrad[Total], FSumOver(CKLines(s), s.nonrad))
AugerRatios(s) ==
  IF ~HasNonrad(s) THEN EmptyMap
  ELSE LET t == AugerTotal(s) IN
       Deep([k \in AugerLines(s) \cup {Total} |-> IF k = Total THEN t ELSE FDiv(s.nonrad[k], t)])

\* ---- yields
ConstOk(s, c) == DOMAIN c \subseteq DOMAIN s.const
ConstSum(s) == FSumMap(s.const)
YieldsValid(s) == ~FGt(ConstSum(s), "1.0001")

\* number of vacancies left in dest by the radiationless transition label "X-ABCD": once per occurrence
Hits(s, m, dest) ==
  LET pre == s.name \o "-" \o dest
      P == {k \in DOMAIN m : SPrefix(pre, k)}
      Q == {k \in DOMAIN m : SSuffix(dest, k)}
  IN FAdd(FSumOver(P, m), FSumOver(Q, m))

TransferRatios(s, dest) ==
  LET fl == FluoRatios(s)
      au == AugerRatios(s)
      ck == CKRatios(s)
      line == s.name \o dest
      base == [fluorescence |-> FMul(IF line \in DOMAIN fl THEN fl[line] ELSE Zero, s.const["omega"]),
               auger |-> FMul(Hits(s, au, dest), FSub(One, ConstSum(s)))]
  IN [k \in {"fluorescence", "auger"} \cup DOMAIN ck |->
        IF k \in DOMAIN ck THEN FMul(Hits(s, ck[k], dest), s.const[k]) ELSE base[k]]
Transfer(s, dest) == FSumMap(TransferRatios(s, dest))

\* ---------------------------------------------------------------- operations
ShellSet(st, id, s) == [st EXCEPT !.shell = Put(@, id, s)]
ShellDo(st, e) ==
  IF e.op = "sh.new" THEN
    IF e.name \in ShellNames THEN [st |-> ShellSet(st, e.id, NewShell(e.name)), res |-> <<Ok("*")>>]
    ELSE [st |-> st, res |-> <<Err>>]
  ELSE IF IsVoid(st.shell[e.id]) THEN [st |-> st, res |-> <<"*">>]
  ELSE LET s == st.shell[e.id] IN
    CASE e.op = "sh.setRad" ->
           \* a refused table leaves the shell in an unspecified state: callers start over
           IF RadOk(s.name, e.labels) THEN [st |-> ShellSet(st, e.id, [s EXCEPT !.rad = RadMap(s.name, e.labels, e.values)]), res |-> <<Ok("*")>>]
           ELSE [st |-> ShellSet(st, e.id, Void), res |-> <<Err>>]
      [] e.op = "sh.setNonrad" -> [st |-> ShellSet(st, e.id, [s EXCEPT !.nonrad = NonradMap(e.labels, e.values)]), res |-> <<Ok("*")>>]
      [] e.op = "sh.setConst" ->
           IF ConstOk(s, e.constants) THEN [st |-> ShellSet(st, e.id, [s EXCEPT !.const = e.constants @@ @]), res |-> <<Ok("*")>>]
           ELSE [st |-> ShellSet(st, e.id, Void), res |-> <<Err>>]
      [] e.op = "sh.rad" -> [st |-> st, res |-> <<Ok(s.rad)>>]
      [] e.op = "sh.nonrad" -> [st |-> st, res |-> <<Ok(s.nonrad)>>]
      [] e.op = "sh.fluo" -> [st |-> st, res |-> <<Ok(FluoRatios(s))>>]
      [] e.op = "sh.auger" -> [st |-> st, res |-> <<Ok(AugerRatios(s))>>]
      [] e.op = "sh.ck" -> [st |-> st, res |-> <<Ok(CKRatios(s))>>]
      [] e.op = "sh.const" -> [st |-> st, res |-> <<Ok(s.const)>>]
      [] e.op = "sh.yield" -> [st |-> st, res |-> <<Ok(s.const["omega"])>>]
      [] e.op = "sh.transfer" ->
           IF Len(e.dest) # 2 \/ ~YieldsValid(s) THEN [st |-> st, res |-> <<Err>>]
           ELSE [st |-> st, res |-> <<Ok(TransferRatios(s, e.dest))>>]
=============================================================================
