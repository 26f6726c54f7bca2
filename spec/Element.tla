------------------------------ MODULE Element ------------------------------
(* One chemical element: its tables, and every quantity derived from them.    *)
(* The answers are functions of the tables only: the calculation cache and    *)
(* the cascade cache never show in an answer (see CacheModel.tla for the      *)
(* implementation-shaped model of the caches and the coherence theorem).      *)
EXTENDS Shell

AllOther == "all other"
PhotoShells == ShellNames \cup {AllOther}
NoTable == [energy |-> <<>>, values |-> <<>>]

NewElement(name, z) ==
  [name |-> name, longName |-> name, z |-> z, mass |-> "*", density |-> One, column |-> -1, row |-> -1,
   be |-> EmptyMap, shells |-> EmptyMap,
   mu |-> EmptyMap, partial |-> [s \in PhotoShells |-> NoTable],
   keys |-> {}, keysKnown |-> TRUE, cacheOn |-> FALSE, cas |-> "empty", casOn |-> FALSE]

\* ---- binding energies and shells
LabelOk(l) == Len(l) > 0 /\ SAt(l, 1) \in {"K", "L", "M"} => l \in ShellNames
BindingOk(be) == \A l \in DOMAIN be : LabelOk(l)
SetBinding(el, be) ==
  [el EXCEPT !.be = be, !.shells = [s \in DOMAIN be \cap ShellNames |-> NewShell(s)], !.keysKnown = FALSE]
BE(el, s) == IF s \in DOMAIN el.be THEN el.be[s] ELSE Zero
Binds(el, s) == FPos(BE(el, s))
ExcitedShells(el, E) == {s \in DOMAIN el.be : FPos(el.be[s]) /\ FGt(E, el.be[s])}

\* ---- photon attenuation
Ascending(v) == \A i \in 1..(Len(v) - 1) : FLe(v[i], v[i + 1])
MuOk(e) ==
  LET n == Len(e.energy) IN
  /\ Len(e.photoelectric) = n /\ Len(e.coherent) = n /\ Len(e.compton) = n
  /\ (Has(e, "pair") /\ Len(e.pair) > 0) => Len(e.pair) = n
  /\ Ascending(e.energy)
MuTable(e) ==
  LET n == Len(e.energy)
      pr == IF Has(e, "pair") /\ Len(e.pair) > 0 THEN e.pair ELSE [i \in 1..n |-> Zero]
  IN [energy |-> e.energy, coherent |-> e.coherent, compton |-> e.compton, pair |-> pr, photoelectric |-> e.photoelectric,
      total |-> [i \in 1..n |-> FSumSeq(<<e.coherent[i], e.compton[i], pr[i], e.photoelectric[i]>>)]]

\* the bracket [i1, i2] used at energy E; at a duplicated energy (an edge) the pair of duplicates
Bracket(x, E) ==
  LET n == Len(x)
      lb == FLowerBound(x, E)
      i2 == IF lb > n THEN n ELSE IF lb = 1 THEN 2 ELSE lb
      i1 == i2 - 1
  IN IF n < 2 THEN <<1, 1>>                  \* one point only: its value everywhere
     ELSE IF FEq(E, x[i2]) /\ i2 < n /\ FEq(x[i2 + 1], x[i2]) THEN <<i2, i2 + 1>> ELSE <<i1, i2>>
Degenerate(x, b) == FLt(FSub(x[b[2]], x[b[1]]), "5.E-10")

\* log-log interpolation of a non-negative quantity; a zero end point counts as one part of the other
\* (only above the lower end)
Interp(x, y, E) ==
  LET b == Bracket(x, E) IN
  LET x0 == x[b[1]] IN
  LET x1 == x[b[2]] IN
  LET y0 == y[b[1]] IN
  LET y1 == y[b[2]] IN
  IF FPos(y0) /\ FPos(y1) THEN FLogLog(x0, y0, x1, y1, E)
  ELSE IF FPos(y1) /\ FGt(FSub(E, x0), "1.E-5") THEN FLogLog(x0, One, x1, y1, E)
  ELSE Zero
InterpScatter(x, y, E) == LET b == Bracket(x, E) IN IF Degenerate(x, b) THEN y[b[1]] ELSE Interp(x, y, E)

\* partial tables as stored: below the binding energy they are zero; at an edge above the binding energy the
\* upper value counts on both sides
RECURSIVE StoreFrom(_, _, _, _)
StoreFrom(x, y, be, i) ==
  IF i > Len(x) THEN [energy |-> x, values |-> y]
  ELSE IF FLt(x[i], be) THEN StoreFrom(x, [y EXCEPT ![i] = Zero], be, i + 1)
  ELSE IF FEq(x[i], x[i - 1]) THEN StoreFrom([x EXCEPT ![i] = FAdd(@, "0.000001")], [y EXCEPT ![i - 1] = y[i]], be, i + 1)
  ELSE StoreFrom(x, y, be, i + 1)
StorePartial(x, y, be) == StoreFrom(x, y, be, 2)
PartialOk(e) == /\ e.shell \in PhotoShells /\ Len(e.energy) = Len(e.values) /\ Ascending(e.energy)
                /\ Len(e.energy) > 0 => ~FLt(e.energy[1], Zero)
SetPartial(el, e) ==
  LET t == IF e.shell = AllOther \/ Len(e.energy) = 0 THEN [energy |-> e.energy, values |-> e.values]
           ELSE StorePartial(e.energy, e.values, BE(el, e.shell))
  IN [el EXCEPT !.partial[e.shell] = t, !.keysKnown = FALSE]

\* the first positive value from i on, or the last point
FirstPos(y, i) == IF \E k \in i..Len(y) : FPos(y[k]) THEN CHOOSE j \in i..Len(y) : FPos(y[j]) /\ \A k \in i..(j-1) : ~FPos(y[k]) ELSE Len(y)
\* an excited shell whose table is still zero at E: continue the first tabulated segment; without one, the last value counts
Extrapolate(x, y, i1, E, skipDup) ==
  LET j0 == FirstPos(y, i1)
      n == Len(y)
      j == IF skipDup /\ j0 < n /\ FLt(FSub(x[Min({j0 + 1, n})], x[j0]), "1.0E-10") THEN j0 + 1 ELSE j0
  IN IF j >= n THEN y[j] ELSE FLogLog(x[j], y[j], x[j + 1], y[j + 1], E)
PartialShell(el, s, E) ==
  IF ~Binds(el, s) \/ FLt(E, BE(el, s)) \/ Len(el.partial[s].energy) = 0 THEN Zero
  ELSE LET x == el.partial[s].energy IN LET y == el.partial[s].values IN LET b == Bracket(x, E) IN
       IF Degenerate(x, b)
       THEN IF FPos(y[b[1]]) THEN y[b[1]]
            ELSE IF FPos(y[b[2]]) THEN y[b[2]] ELSE Extrapolate(x, y, b[1], E, FALSE)
       ELSE IF FPos(y[b[1]]) THEN FLogLog(x[b[1]], y[b[1]], x[b[2]], y[b[2]], E)
            ELSE Extrapolate(x, y, b[1], E, TRUE)
PartialOther(el, E) ==
  LET x == el.partial[AllOther].energy IN LET y == el.partial[AllOther].values IN LET b == Bracket(x, E) IN
  IF Len(x) = 0 THEN Zero
  ELSE IF Degenerate(x, b) THEN y[b[2]] ELSE Interp(x, y, E)
HasPartials(el) == \E s \in PhotoShells : Len(el.partial[s].energy) > 0
PartialAt(el, E) == Deep([s \in PhotoShells |-> IF ~HasPartials(el) THEN Zero
                                           ELSE IF s = AllOther THEN PartialOther(el, E) ELSE PartialShell(el, s, E)])
MuReady(el) == "energy" \in DOMAIN el.mu /\ Len(el.mu.energy) > 0

\* photoelectric is the sum of the shells; total is the sum of the processes
MuAt(el, E) ==
  LET p == PartialAt(el, E) IN
  LET x == el.mu.energy IN
  LET coh == InterpScatter(x, el.mu.coherent, E) IN
  LET com == InterpScatter(x, el.mu.compton, E) IN
  LET pr == InterpScatter(x, el.mu.pair, E) IN
  LET ph == FSumMap(p) IN
  Deep([k \in PhotoShells \cup {"energy", "coherent", "compton", "pair", "photoelectric", "total"} |->
     CASE k \in PhotoShells -> p[k]
       [] k = "energy" -> E
       [] k = "coherent" -> coh
       [] k = "compton" -> com
       [] k = "pair" -> pr
       [] k = "photoelectric" -> ph
       [] k = "total" -> FSumSeq(<<ph, coh, com, pr>>)])
\* one map of vectors out of one map per energy
Vectors(F(_), Es) ==
  IF Len(Es) = 0 THEN EmptyMap
  ELSE LET m == Deep([i \in 1..Len(Es) |-> F(Es[i])]) IN [k \in DOMAIN m[1] |-> [i \in 1..Len(Es) |-> m[i][k]]]

DistBy(m) == Deep([s \in PhotoShells |-> IF FPos(m.photoelectric) THEN FDiv(m[s], m.photoelectric) ELSE Zero])
VacancyDist(el, E) == DistBy(MuAt(el, E))

\* the edges a photoelectric table shows (two points of equal energy, the second one higher), from the highest
\* energy down: K, L1, L2, ...; believed if within 100 eV of the binding energy of that shell
EdgePoints(x, y) == {i \in 1..(Len(x) - 1) : FEq(x[i], x[i + 1]) /\ FLt(y[i], y[i + 1])}
Edges(el, x, y) ==
  LET C == EdgePoints(x, y)
      F == SetToSortSeq({i \in C : \A j \in C : FEq(x[i], x[j]) => j <= i}, LAMBDA i, j : i > j)
      ok(k) == k <= Len(F) /\ Binds(el, ShellOrder[k]) /\ FLt(FAbs(FSub(x[F[k]], BE(el, ShellOrder[k]))), "0.1")
  IN Deep([s \in {ShellOrder[k] : k \in {n \in 1..9 : ok(n)}} |->
       LET i == F[CHOOSE k \in 1..9 : ShellOrder[k] = s] IN [energy |-> x[i], at |-> i]])

\* ---- vacancy cascade and emitted lines
Cells(el) == {s \in ShellNames : s \in DOMAIN el.shells}
CellSeq(el) == SelectSeq(ShellOrder, LAMBDA s : s \in DOMAIN el.shells)
DistAt(dist, s) == IF s \in DOMAIN dist THEN dist[s] ELSE Zero
Plain(el, dist) == Deep([s \in Cells(el) |-> DistAt(dist, s)])

\* how vacancies and lines follow from the tables: branching ratios of each shell, transfers between shells
Decay(el) == [fluo |-> [s \in Cells(el) |-> FluoRatios(el.shells[s])],
              transfer |-> [s \in Cells(el) |-> [t \in Cells(el) |-> Transfer(el.shells[s], t)]]]
RECURSIVE CascadeFrom(_, _, _, _)
CascadeFrom(el, decay, v, i) ==
  LET q == CellSeq(el) IN
  IF i > Len(q) THEN v
  ELSE IF ~FPos(v[q[i]]) THEN CascadeFrom(el, decay, v, i + 1)
  ELSE LET later == {q[j] : j \in (i+1)..Len(q)} IN
       CascadeFrom(el, decay, Deep([s \in DOMAIN v |-> IF s \in later THEN FAdd(v[s], FMul(decay.transfer[q[i]][s], v[q[i]])) ELSE v[s]]), i + 1)
CascadeBy(el, decay, dist) == CascadeFrom(el, decay, Plain(el, dist), 1)
Cascade(el, dist) == CascadeBy(el, Decay(el), dist)
\* the cascade can be followed unless a shell reached has yields above one and something above it to feed
CascadeValid(el, dist) ==
  LET q == CellSeq(el) IN
  IF \A i \in 1..(Len(q) - 1) : YieldsValid(el.shells[q[i]]) THEN TRUE
  ELSE LET bad == CHOOSE i \in 1..(Len(q) - 1) : ~YieldsValid(el.shells[q[i]]) /\ \A j \in 1..(i-1) : YieldsValid(el.shells[q[j]])
           safe == [el EXCEPT !.shells = [s \in DOMAIN @ |-> IF YieldsValid(@[s]) THEN @[s] ELSE NewShell(s)]]
       IN \A i \in 1..(Len(q) - 1) : ~YieldsValid(el.shells[q[i]]) => ~FPos(Cascade(safe, dist)[q[i]])

LineFrom(l) == SubSeq(l, Len(l) - 1, Len(l))           \* shell of the filling electron
LineTo(l) == SubSeq(l, 1, Len(l) - 2)                  \* shell of the vacancy
LineLenOk(l) == Len(l) \in {3, 4}
TransitionOk(el, l) == LineLenOk(l) /\ LineTo(l) \in DOMAIN el.be /\ FPos(el.be[LineTo(l)]) /\ ~FLt(BE(el, LineFrom(l)), Zero)
\* an outer shell without tabulated binding energy counts as 3 eV
TransitionEnergy(el, l) ==
  LET o == BE(el, LineFrom(l)) IN FSub(el.be[LineTo(l)], IF FPos(o) THEN o ELSE "0.003")

ShellLines(el, s, fl, v, useYield) ==
  LET f == IF useYield THEN el.shells[s].const["omega"] ELSE One
      rate == Deep([l \in DOMAIN fl |-> FMul(FMul(fl[l], v), f)])
  IN Deep([l \in {k \in DOMAIN fl : FPos(rate[k])} |-> [rate |-> rate[l], energy |-> TransitionEnergy(el, l)]])
LinesFrom(el, decay, v, useYield) ==
  FoldLeft(LAMBDA m, s : IF FPos(v[s]) THEN m @@ ShellLines(el, s, Deep(decay.fluo[s]), v[s], useYield) ELSE m, EmptyMap, CellSeq(el))
LinesBy(el, decay, dist, cascade, useYield) == LinesFrom(el, decay, IF cascade THEN CascadeBy(el, decay, dist) ELSE Plain(el, dist), useYield)
Lines(el, dist, cascade, useYield) == LinesBy(el, Decay(el), dist, cascade, useYield)

\* m: what MuAt(el, E) gives
ExciteBy(el, decay, m, w) ==
  LET ph == m.photoelectric
      r == LinesBy(el, decay, DistBy(m), TRUE, TRUE)
  IN Deep([l \in DOMAIN r |-> LET f == FMul(r[l].rate, w) IN [energy |-> r[l].energy, factor |-> f, rate |-> FMul(f, ph)]])
ExciteAt(el, E, w) == ExciteBy(el, Decay(el), MuAt(el, E), w)
WeightAt(e, i) == IF ~Has(e, "weights") \/ Len(e.weights) = 0 THEN FDiv(One, Len(e.energies))
                  ELSE IF Len(e.weights) = 1 THEN e.weights[1] ELSE e.weights[i]

\* lines that can be emitted after absorption at E: every line of an ionised shell with a fluorescence yield,
\* up to the first shell the element does not define
EmittedLines(el, E) ==
  LET n == CHOOSE k \in 0..9 : (\A j \in 1..k : ShellOrder[j] \in DOMAIN el.shells) /\ (k = 9 \/ ShellOrder[k + 1] \notin DOMAIN el.shells)
      S == {s \in {ShellOrder[j] : j \in 1..n} : FGt(E, el.be[s]) /\ FPos(el.shells[s].const["omega"])}
      L == UNION {DOMAIN FluoRatios(el.shells[s]) : s \in S}
  IN [ok |-> \A l \in L : TransitionOk(el, l), lines |-> L]

\* ---------------------------------------------------------------- operations
\* table changes forget the stored calculations; how many remain stored is then not specified until the next fill
Dirty(el) == [el EXCEPT !.keysKnown = FALSE]
\* the cascade cache is the caller's to reset after a change of rates or binding energies; new yields reset it
CascadeStale(el) == [el EXCEPT !.cas = (IF @ = "empty" THEN "empty" ELSE "stale")]
StaleCascade(el) == el.casOn /\ el.cas = "stale"
ShellReady(el, s) == s \in DOMAIN el.be /\ FPos(el.be[s]) /\ s \in DOMAIN el.shells
CacheLimit == 10000

ElementQuery(el, e) ==
  LET q == e.q IN
  CASE q = "binding" -> Ok(el.be)
    [] q = "rad" -> IF e.shell \in DOMAIN el.shells THEN Ok(el.shells[e.shell].rad) ELSE Err
    [] q = "nonrad" -> IF e.shell \in DOMAIN el.shells THEN Ok(el.shells[e.shell].nonrad) ELSE Err
    [] q = "const" -> IF e.shell \in DOMAIN el.shells THEN Ok(el.shells[e.shell].const) ELSE Err
    [] q \in {"fluo", "xraylines"} -> IF e.shell \in DOMAIN el.shells THEN Ok(FluoRatios(el.shells[e.shell])) ELSE Err
    [] q = "auger" -> IF e.shell \in DOMAIN el.shells THEN Ok(AugerRatios(el.shells[e.shell])) ELSE Err
    [] q = "ck" -> IF e.shell \in DOMAIN el.shells THEN Ok(CKRatios(el.shells[e.shell])) ELSE Err
    [] q = "transfer" -> IF e.shell \in DOMAIN el.shells /\ Len(e.dest) = 2 /\ YieldsValid(el.shells[e.shell])
                         THEN Ok(TransferRatios(el.shells[e.shell], e.dest)) ELSE Err
    [] q = "excited" -> Ok(SortedStrings(ExcitedShells(el, e.energy)))
    [] q = "mutable" -> Ok(el.mu)
    [] q = "mu" -> IF MuReady(el) THEN Ok(MuAt(el, e.energy)) ELSE Err
    [] q = "muvec" -> IF MuReady(el) \/ Len(e.energies) = 0 THEN Ok(Vectors(LAMBDA E : MuAt(el, E), e.energies)) ELSE Err
    [] q = "edges" -> IF ~MuReady(el) \/ DOMAIN el.be = {} THEN Err
                      ELSE LET r == Edges(el, el.mu.energy, el.mu.photoelectric) IN Ok([s \in DOMAIN r |-> r[s].energy])
    [] q = "partial" -> Ok(PartialAt(el, e.energy))
    [] q = "vacdist" -> IF MuReady(el) THEN Ok(VacancyDist(el, e.energy)) ELSE Err
    [] q = "vacdistvec" -> IF Len(e.energies) = 0 THEN Ok([s \in PhotoShells |-> <<>>]) ELSE IF MuReady(el) THEN Ok(Vectors(LAMBDA E : VacancyDist(el, E), e.energies)) ELSE Err
    [] q = "emitted" -> LET r == EmittedLines(el, e.energy) IN
                        IF r.ok THEN Ok([l \in r.lines |-> TransitionEnergy(el, l)]) ELSE Err
    [] q = "tenergy" -> IF TransitionOk(el, e.line) THEN Ok(TransitionEnergy(el, e.line)) ELSE Err
    [] q = "cascade" -> IF CascadeValid(el, e.dist) THEN Ok(Cascade(el, e.dist)) ELSE Err
    [] q = "lines" -> IF Get(e, "cascade", 1) # 0 /\ Get(e, "yield", 1) # 0 /\ StaleCascade(el) THEN "*"
                      ELSE IF Get(e, "cascade", 1) = 0 \/ CascadeValid(el, e.dist)
                      THEN Ok(Lines(el, e.dist, Get(e, "cascade", 1) # 0, Get(e, "yield", 1) # 0)) ELSE Err
    [] q = "excite" -> IF StaleCascade(el) THEN "*" ELSE IF MuReady(el) /\ CascadeValid(el, VacancyDist(el, e.energy)) THEN Ok(ExciteAt(el, e.energy, Get(e, "weight", One))) ELSE Err
    [] q = "excitevec" -> IF Len(e.energies) = 0 THEN Ok(<<>>)
                          ELSE IF StaleCascade(el) THEN "*"
                          ELSE IF MuReady(el) /\ \A i \in 1..Len(e.energies) : CascadeValid(el, VacancyDist(el, e.energies[i]))
                          THEN Ok([i \in 1..Len(e.energies) |-> ExciteAt(el, e.energies[i], WeightAt(e, i))]) ELSE Err
    [] q = "cacheSize" -> IF el.keysKnown THEN Ok(Cardinality(el.keys)) ELSE Ok("*")
    [] q = "cacheEnabled" -> Ok(IF el.cacheOn THEN 1 ELSE 0)
    [] q = "cascadeFilled" -> Ok(CASE el.cas = "empty" -> 0 [] el.cas = "good" -> 1 [] el.cas = "stale" -> "*")

Canon(E) == FCanon(E)
FillKeys(Es) == {Canon(Es[i]) : i \in 1..(IF Len(Es) < CacheLimit THEN Len(Es) ELSE CacheLimit)}
ElementCache(el, e) ==
  LET w == e.what IN
  CASE w = "enable" -> [el EXCEPT !.cacheOn = (e.flag # 0)]
    [] w = "clear" -> [el EXCEPT !.keys = {}, !.keysKnown = TRUE]
    [] w = "fill" -> [el EXCEPT !.keys = FillKeys(e.energies), !.keysKnown = TRUE]
    [] w = "update" -> [el EXCEPT !.keys = @ \cup FillKeys(e.energies)]
    [] w = "fillN" -> [el EXCEPT !.keys = 1..(IF e.n < CacheLimit THEN e.n ELSE CacheLimit), !.keysKnown = TRUE]
    [] w = "updateN" -> [el EXCEPT !.keys = 1..(IF Cardinality(@) + e.n < CacheLimit THEN Cardinality(@) + e.n ELSE CacheLimit)]
    [] w = "cascadeEnable" -> IF e.flag = 0 THEN [el EXCEPT !.casOn = FALSE]
                              ELSE [el EXCEPT !.casOn = TRUE, !.cas = (IF @ = "empty" /\ DOMAIN el.shells # {} THEN "good" ELSE @)]
    [] w = "cascadeFill" -> [el EXCEPT !.cas = (IF DOMAIN el.shells # {} THEN "good" ELSE "empty")]
    [] w = "cascadeEmpty" -> [el EXCEPT !.cas = "empty"]
AllCascade(el) == \A s \in Cells(el) : CascadeValid(el, [x \in {s} |-> One])
CacheFails(el, e) ==
  \/ e.what \in {"fill", "update"} /\ Len(e.energies) > 0 /\
       (~MuReady(el) \/ \E i \in 1..Len(e.energies) : ~CascadeValid(el, VacancyDist(el, e.energies[i])))
  \/ (e.what = "cascadeFill" \/ (e.what = "cascadeEnable" /\ e.flag # 0 /\ el.cas = "empty")) /\ ~AllCascade(el)

ElSet(st, id, el) == [st EXCEPT !.el = Put(@, id, el)]
ElementDo(st, e) ==
  LET ok(el) == [st |-> ElSet(st, e.id, el), res |-> <<Ok("*")>>]
      fail == [st |-> st, res |-> <<Err>>]
  IN
  IF e.op = "el.new" THEN IF e.z < 1 THEN fail ELSE ok(NewElement(e.name, e.z))
  ELSE IF e.op = "el.copy" THEN ok(st.el[e.from])
  ELSE IF IsVoid(st.el[e.id]) THEN [st |-> st, res |-> <<"*">>]
  ELSE LET el == st.el[e.id] IN
    CASE e.op = "el.setName" -> ok([el EXCEPT !.name = e.name])
      [] e.op = "el.setLongName" -> ok([el EXCEPT !.longName = e.name])
      [] e.op = "el.setZ" -> IF e.z < 1 THEN fail ELSE ok([el EXCEPT !.z = e.z])
      [] e.op = "el.setMass" -> IF FLt(e.mass, Zero) THEN fail ELSE ok([el EXCEPT !.mass = e.mass])
      [] e.op = "el.setDensity" -> ok([el EXCEPT !.density = e.density])
      [] e.op = "el.setColumn" -> ok([el EXCEPT !.column = e.n])
      [] e.op = "el.setRow" -> ok([el EXCEPT !.row = e.n])
      [] e.op = "el.info" -> [st |-> st, res |-> <<Ok([name |-> el.name, longName |-> el.longName, z |-> el.z, density |-> el.density,
                                                     column |-> el.column, row |-> el.row] @@
                                                    (IF Get(e, "mass", 1) = 1 THEN [mass |-> el.mass] ELSE EmptyMap))>>]
      [] e.op = "el.setBinding" ->
           IF Get(e, "form", "map") = "vec" /\ Len(e.labels) # Len(e.values) THEN fail
           ELSE LET be == MapOf(e.labels, e.values) IN
                IF BindingOk(be) THEN ok(CascadeStale(SetBinding(el, be)))
                ELSE [st |-> ElSet(st, e.id, Void), res |-> <<Err>>]
      [] e.op = "el.setMu" -> IF MuOk(e) THEN ok(Dirty([el EXCEPT !.mu = MuTable(e)])) ELSE fail
      [] e.op = "el.setPartial" -> IF PartialOk(e) THEN ok(SetPartial(el, e)) ELSE fail
      [] e.op = "el.setRad" ->
           IF ~ShellReady(el, e.shell) THEN fail
           ELSE IF ~RadOk(e.shell, e.labels) THEN [st |-> ElSet(st, e.id, Void), res |-> <<Err>>]
           ELSE ok(CascadeStale(Dirty([el EXCEPT !.shells[e.shell].rad = RadMap(e.shell, e.labels, e.values)])))
      [] e.op = "el.setNonrad" ->
           IF ~ShellReady(el, e.shell) THEN fail
           ELSE ok(CascadeStale(Dirty([el EXCEPT !.shells[e.shell].nonrad = NonradMap(e.labels, e.values)])))
      [] e.op = "el.setConst" ->
           IF e.shell \notin DOMAIN el.shells THEN fail
           ELSE IF ~ConstOk(el.shells[e.shell], e.constants) THEN [st |-> ElSet(st, e.id, Void), res |-> <<Err>>]
           ELSE ok(Dirty([el EXCEPT !.shells[e.shell].const = e.constants @@ @, !.cas = "empty"]))
      [] e.op = "el.cache" ->
           IF CacheFails(el, e) THEN [st |-> ElSet(st, e.id, Void), res |-> <<Err>>]
           ELSE ok(ElementCache(el, e))
      [] e.op = "el.q" -> [st |-> st, res |-> <<ElementQuery(el, e)>>]
=============================================================================
