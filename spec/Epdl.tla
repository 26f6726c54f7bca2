-------------------------------- MODULE Epdl --------------------------------
(* The photoelectric, coherent and Compton cross sections of the EPDL97       *)
(* library as tabulated per shell, under any set of binding energies.         *)
EXTENDS Element, Text, IOUtils, Json

DS == JsonDeserialize(IOEnv.DATASET)
Known == Deep(Range(DS.used))
LastMu == 100                      \* elements with tabulated cross sections; the others use the last one's
MuSymbol(z) == DS.order[IF z > LastMu THEN LastMu ELSE z]
HasData(z) == z > 0 /\ (z > Len(DS.order) \/ MuSymbol(z) \in Known)

\* ---- derived tables: what is not in a tabulated shell belongs to "all other", from potassium on
NotNeg(x) == IF FLt(x, Zero) THEN Zero ELSE x
EpdlTable(s, z) ==
  LET r == DS.epdl[s]
      n == Len(r.energy)
      pho == Deep([i \in 1..n |-> FSub(FSub(r.total[i], r.compton[i]), r.coherent[i])])
      sum(i) == FSumSeq([k \in 1..9 |-> r[ShellOrder[k]][i]])
      oth == Deep([i \in 1..n |->
               NotNeg(IF ~FPos(pho[i]) THEN r[AllOther][i]
                      ELSE IF FPos(r[AllOther][i]) /\ z > 18 THEN FSub(pho[i], sum(i)) ELSE Zero)])
      ph == Deep([i \in 1..n |-> FAdd(sum(i), oth[i])])
  IN Deep([k \in ShellNames \cup {"energy", "coherent", "compton", "pair", "photoelectric", "total", AllOther} |->
       CASE k = AllOther -> oth
         [] k = "photoelectric" -> ph
         [] k = "pair" -> [i \in 1..n |-> Zero]
         [] k = "total" -> [i \in 1..n |-> FSumSeq(<<ph[i], r.coherent[i], r.compton[i]>>)]
         [] OTHER -> r[k]])
ZOf(s) == LET z == DS.elements[s].z IN IF z > LastMu THEN LastMu ELSE z
EpdlTables(s) == Memo("table " \o s, EpdlTable(s, ZOf(s)))

\* ---- at one energy
PointBracket(x, E) == IF FLt(E, x[1]) THEN <<1, 1>> ELSE Bracket(x, E)
PointShell(x, y, be, E, b, deg) ==
  IF ~FPos(be) \/ FLt(E, be) THEN Zero
  ELSE IF FPos(y[b[1]]) THEN IF deg THEN y[b[1]] ELSE IF FPos(y[b[2]]) THEN FLogLog(x[b[1]], y[b[1]], x[b[2]], y[b[2]], E) ELSE Zero
  ELSE IF deg /\ FPos(y[b[2]]) THEN y[b[2]]
  ELSE Extrapolate(x, y, b[1], E, FALSE)
EpdlAt(t, be, E) ==
  LET x == t.energy
      b == PointBracket(x, E)
      deg == Degenerate(x, b)
      flat(k) == IF deg THEN t[k][b[2]] ELSE Interp(x, t[k], E)
      sh == Deep([s \in ShellNames |-> PointShell(x, t[s], be[s], E, b, deg)])
      ot == flat(AllOther)
      ph == FAdd(FSumMap(sh), ot)
      coh == flat("coherent")
      com == flat("compton")
  IN Deep([k \in ShellNames \cup {"energy", "coherent", "compton", "pair", "photoelectric", "total", AllOther} |->
       CASE k = AllOther -> ot
         [] k = "energy" -> E
         [] k = "coherent" -> coh
         [] k = "compton" -> com
         [] k = "pair" -> Zero
         [] k = "photoelectric" -> ph
         [] k = "total" -> FSumSeq(<<ph, coh, com>>)
         [] OTHER -> sh[k]])
WeightsAt(t, be, E) ==
  LET m == EpdlAt(t, be, E)
      none == FLe(m.photoelectric, "1E-10")
      mus == [k \in {"mu " \o x : x \in DOMAIN m} |-> m[SubSeq(k, 4, Len(k))]]
  IN mus @@ [s \in PhotoShells |-> IF none THEN Zero ELSE FDiv(m[s], m.photoelectric)]

\* ---- data files: numbers by row and label
Base0(p) == LET q == SplitFrom(SChars(p), {"/"}, 1, <<>>, <<>>) IN q[Len(q)]
InData(p) == SPrefix("data/", p)
\* labels and rows of one scan of a script's own file, or Err
ScanOf(st, p, k) ==
  LET l == Deep(ScanLabels(st.fs[p], k)) IN LET d == Deep(ScanData(st.fs[p], k)) IN
  IF l = Err \/ d = Err THEN Err
  ELSE IF Len(d.ok) = 0 \/ Len(d.ok[1]) # Len(l.ok) THEN Err
  ELSE Ok([labels |-> l.ok, rows |-> d.ok])
ScansIn(st, p) == IF Exists(st, p) THEN ScanCount(st.fs[p]) ELSE 0

\* "K(1s1/2)" and "L1" are the shells K and L1; longer names in front of a parenthesis keep three letters
ShellKey(l) == IF SPrefix("K", l) THEN "K" ELSE IF Len(l) > 3 /\ SAt(l, 4) = "(" THEN SubSeq(l, 1, 3) ELSE SubSeq(l, 1, IF Len(l) < 2 THEN Len(l) ELSE 2)
BindingRow(s, i) ==
  LET n == Len(s.labels) IN MapOf([j \in 1..(n - 1) |-> ShellKey(s.labels[j + 1])], [j \in 1..(n - 1) |-> s.rows[i][j + 1]])

\* ---- objects: binding energies are rows 1..n, those of the data directory unless set otherwise
\* o = [be : row -> map (overrides), src : "eadl" | "pymca" | "none", n : rows, mu : BOOLEAN]
NewEpdl == [init |-> FALSE, src |-> "none", be |-> EmptyMap, n |-> 0, mu |-> FALSE]
RowKey(i) == ToString(i)
SourceRow(o, i) == DS.binding[o.src][DS.order[i]]
RowKnown(o, i) == IF RowKey(i) \in DOMAIN o.be THEN ~IsVoid(o.be[RowKey(i)]) ELSE o.src # "none" /\ DS.order[i] \in Known
Row(o, i) == IF RowKey(i) \in DOMAIN o.be THEN o.be[RowKey(i)] ELSE SourceRow(o, i)
RowFor(o, z) == IF z >= o.n THEN o.n ELSE z

EpdlQuery(o, e) ==
  LET q == e.q
      z == e.z
      mz == IF z > LastMu THEN LastMu ELSE z
      row == IF mz > o.n THEN o.n ELSE mz
      t == EpdlTables(MuSymbol(z))
      be == Row(o, row)
      ok(E) == ShellNames \subseteq DOMAIN be
  IN IF q = "binding" THEN IF z < 1 \/ o.n < 1 THEN Err ELSE IF RowKnown(o, RowFor(o, z)) THEN Ok(Row(o, RowFor(o, z))) ELSE "*"
     ELSE IF q \in {"muvec", "weightsvec"} /\ Len(e.energies) = 0 THEN Ok(EmptyMap)
     ELSE IF ~o.init \/ ~o.mu \/ z < 1 THEN Err
     ELSE IF ~HasData(z) THEN "*"
     ELSE IF q = "mutable" THEN Ok(t)
     ELSE IF o.n < 1 \/ ~RowKnown(o, row) THEN "*"
     ELSE IF ~ok(1) THEN Err
     ELSE CASE q = "mu" -> Ok(EpdlAt(t, be, e.energy))
            [] q = "muvec" -> Ok(Vectors(LAMBDA E : EpdlAt(t, be, E), e.energies))
            [] q = "weights" -> Ok(WeightsAt(t, be, e.energy))
            [] q = "weightsvec" -> Ok(Vectors(LAMBDA E : WeightsAt(t, be, E), e.energies))
\* reading another file keeps the shells it does not name
LoadRows(o, st, f) ==
  LET s == Deep(ScanOf(st, f, 1).ok)
      n == Len(s.rows)
  IN [o EXCEPT !.init = TRUE, !.n = n,
        !.be = Deep([k \in {RowKey(i) : i \in 1..n} |->
                 LET i == CHOOSE j \in 1..n : RowKey(j) = k IN
                 IF i > o.n THEN BindingRow(s, i) ELSE IF RowKnown(o, i) THEN BindingRow(s, i) @@ Row(o, i) ELSE Void])]
EpdlDo(st, e) ==
  LET set(o) == [st |-> [st EXCEPT !.epdl = Put(@, e.id, o)], res |-> <<Ok("*")>>]
      say(r) == [st |-> st, res |-> <<r>>]
      void == [st |-> [st EXCEPT !.epdl = Put(@, e.id, Void)], res |-> <<Err>>]
      fresh == [init |-> TRUE, src |-> "eadl", be |-> EmptyMap, n |-> DS.rows.eadl, mu |-> TRUE]
  IN CASE e.op = "epdl.default" -> set(NewEpdl)
       [] e.op = "epdl.new" -> IF e.dir \in {"data", "data/"} THEN set(fresh) ELSE say(Err)
       [] e.op = "epdl.setDir" -> IF e.dir \in {"data", "data/"} THEN set(fresh) ELSE void
       [] OTHER ->
          LET o == st.epdl[e.id] IN
          IF IsVoid(o) THEN say("*")
          ELSE CASE e.op = "epdl.loadBinding" ->
                      IF InData(e.file) THEN
                        IF Base0(e.file) = "BindingEnergies.dat" /\ o.src \in {"eadl", "pymca"} /\ DOMAIN o.be = {}
                        THEN set([o EXCEPT !.src = "pymca", !.init = TRUE, !.n = DS.rows.pymca])
                        ELSE [st |-> [st EXCEPT !.epdl = Put(@, e.id, Void)], res |-> <<"*">>]
                      ELSE IF ScansIn(st, e.file) # 1 \/ ScanOf(st, e.file, 1) = Err THEN say(Err)
                      ELSE set(LoadRows(o, st, e.file))
                 [] e.op = "epdl.setBinding" ->
                      IF e.z < 1 \/ e.z > o.n THEN say(Err) ELSE set([o EXCEPT !.be = Put(@, RowKey(e.z), e.energies)])
                 [] e.op = "epdl.q" -> say(EpdlQuery(o, e))
=============================================================================
