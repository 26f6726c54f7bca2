------------------------------ MODULE Library ------------------------------
(* The element library: elements built from the data directory, materials,    *)
(* formulas, and what follows for mixtures.                                   *)
EXTENDS Epdl, Formula

Mains == {"K", "L", "M"}
SubsOf(m) == SelectSeq(ShellOrder, LAMBDA s : MainOf(s) = m)

\* ---------------------------------------------------------------- supplied attenuation coefficients
\* Elements::setMassAttenuationCoefficients replaces the attenuation of an element from the first supplied energy on,
\* keeping the tabulated coefficients below it and the tabulated division of the photoelectric effect among the shells,
\* except that a supplied edge decides where its shell begins
SupplyOk(e) ==
  LET n == Len(e.energy) IN
  /\ n > 0 /\ Len(e.photoelectric) = n /\ Len(e.coherent) = n /\ Len(e.compton) = n
  /\ Len(Get(e, "pair", <<>>)) \in {0, n}
SetTables(el, t) ==
  FoldLeft(LAMBDA a, s : SetPartial(a, [shell |-> s, energy |-> t.energy, values |-> t[s]]),
           [el EXCEPT !.mu = MuTable(t)], Append(ShellOrder, AllOther))
ResetMu(el) == SetTables(el, EpdlTables(MuSymbol(el.z)))

RECURSIVE GridFrom(_, _, _, _, _, _)
\* the supplied energies, moved so that the point above an edge excites its shell and energies do not decrease
GridFrom(el, x, above, i, prev, out) ==
  IF i > Len(x) THEN out
  ELSE LET g0 == IF i \in DOMAIN above /\ FLt(x[i], BE(el, above[i])) THEN BE(el, above[i]) ELSE x[i]
           g == IF prev # "none" /\ FLt(g0, prev) THEN FAdd(prev, "0.000001") ELSE g0
       IN GridFrom(el, x, above, i + 1, IF prev = "none" THEN "none" ELSE g, Append(out, g))

Supply(el0, e) ==
  LET t == EpdlTables(MuSymbol(el0.z))
      el == ResetMu(el0)
      x == e.energy
      n == Len(x)
      below == FLowerBound(t.energy, x[1]) - 1
      j == IF below > 0 THEN below - 1 ELSE 0
      ed == Edges(el, x, e.photoelectric)
      above == [i \in {ed[s].at + 1 : s \in DOMAIN ed} |-> CHOOSE s \in DOMAIN ed : ed[s].at + 1 = i]
      head == SubSeq(t.energy, 1, j)
      grid == head \o GridFrom(el, x, above, 1, IF j > 0 THEN head[j] ELSE "none", <<>>)
      m == Deep([i \in 1..(j + n) |-> MuAt(el, grid[i])])
      sup(v, k) == [i \in 1..(j + n) |-> IF i <= j THEN m[i][k] ELSE v[i - j]]
      scaled(s, i) == IF FPos(m[i].photoelectric) THEN FMul(FDiv(m[i][s], m[i].photoelectric), e.photoelectric[i - j]) ELSE Zero
      part(s) ==
        IF DOMAIN ed # {} /\ s \notin DOMAIN ed THEN [i \in 1..(j + n) |-> m[i][s]]
        ELSE IF DOMAIN ed # {} THEN [i \in 1..(j + n) |-> IF i <= j + ed[s].at THEN Zero ELSE scaled(s, i)]
        ELSE [i \in 1..(j + n) |-> IF i <= j THEN m[i][s] ELSE scaled(s, i)]
      pr == IF Len(Get(e, "pair", <<>>)) > 0 THEN e.pair ELSE [i \in 1..n |-> Zero]
      r == Deep([k \in {"energy", "coherent", "compton", "pair", "photoelectric"} \cup PhotoShells |->
             CASE k = "energy" -> grid
               [] k = "coherent" -> sup(e.coherent, k)
               [] k = "compton" -> sup(e.compton, k)
               [] k = "pair" -> sup(pr, k)
               [] k = "photoelectric" -> sup(e.photoelectric, k)
               [] OTHER -> part(k)])
      new == Deep(SetTables(el, r))
  IN IF ~Ascending(grid) THEN Void
     \* an edge taken for another shell's can leave tables out of order: nothing is said about those
     ELSE IF \E k \in PhotoShells : ~Ascending(new.partial[k].energy) THEN Star ELSE Dirty(new)

\* ---------------------------------------------------------------- elements as built
Info(s) == DS.elements[s]
Bare(s) ==
  LET i == Info(s) IN
  [NewElement(s, i.z) EXCEPT !.longName = i.longName, !.mass = i.mass, !.density = i.density, !.column = i.column, !.row = i.row]
ApplyConst(el, T) == [el EXCEPT !.shells = [s \in DOMAIN @ |-> IF s \in DOMAIN T THEN [@[s] EXCEPT !.const = T[s] @@ @] ELSE @[s]]]
BoundSubs(el, T) == {s \in DOMAIN T : Binds(el, s)}
ApplyRad(el, T) ==
  [el EXCEPT !.shells = [s \in DOMAIN @ |-> IF s \in BoundSubs(el, T)
     THEN [@[s] EXCEPT !.rad = RadMap(s, SetToSeq(DOMAIN T[s]), LET q == SetToSeq(DOMAIN T[s]) IN [i \in 1..Len(q) |-> T[s][q[i]]])] ELSE @[s]]]
ApplyNonrad(el, T) ==
  [el EXCEPT !.shells = [s \in DOMAIN @ |-> IF s \in BoundSubs(el, T)
     THEN [@[s] EXCEPT !.nonrad = NonradMap(SetToSeq(DOMAIN T[s]), LET q == SetToSeq(DOMAIN T[s]) IN [i \in 1..Len(q) |-> T[s][q[i]]])] ELSE @[s]]]
Clean(el) == [el EXCEPT !.keysKnown = TRUE]
WithEadl(s, be) ==
  ApplyRad(ApplyNonrad(ApplyConst(ResetMu(SetBinding(Bare(s), be)), DS.const.eadl[s]), DS.nonrad.eadl[s]), DS.rad.eadl[s])
WithXcom(el) == IF el.name \in DOMAIN DS.xcom THEN Supply(el, DS.xcom[el.name]) ELSE el
WithPymca(el) == ApplyRad(ApplyConst(el, DS.const.pymca[el.name]), DS.rad.pymca[el.name])
BuildElement(kind, s) ==
  Clean(CASE kind = "epdl" -> WithEadl(s, DS.binding.eadl[s])
          [] kind = "files0" -> WithEadl(s, DS.binding.pymca[s])
          [] kind = "files1" -> WithXcom(WithEadl(s, DS.binding.pymca[s]))
          [] kind = "pymca" -> WithPymca(WithXcom(WithEadl(s, DS.binding.pymca[s]))))
Kinds == {"epdl", "files0", "files1", "pymca"}
Built(kind, s) == Memo("element " \o kind \o " " \o s, Deep(BuildElement(kind, s)))
BuiltDecay(kind, s) == Memo("decay " \o kind \o " " \o s, Deep(Decay(Built(kind, s))))

\* ---------------------------------------------------------------- a library
NoFiles == [const |-> [m \in Mains |-> ""], rad |-> [m \in Mains |-> ""], nonrad |-> [m \in Mains |-> ""]]
EadlFiles(d) ==
  [const |-> [m \in Mains |-> d \o "//EADL97_" \o m \o "ShellConstants.dat"],
   rad |-> [m \in Mains |-> d \o "//EADL97_" \o m \o "ShellRadiativeRates.dat"],
   nonrad |-> [m \in Mains |-> d \o "//EADL97_" \o m \o "ShellNonradiativeRates.dat"]]
PymcaFiles(d) == [EadlFiles(d) EXCEPT !.const = [m \in Mains |-> d \o "//" \o m \o "ShellConstants.dat"],
                                      !.rad = [m \in Mains |-> d \o "//" \o m \o "ShellRates.dat"]]
NewLibrary(kind, d) ==
  [kind |-> kind, els |-> EmptyMap, order |-> DS.order, mats |-> <<>>, files |-> (IF kind = "pymca" THEN PymcaFiles(d) ELSE EadlFiles(d)), escOn |-> 0]
Defined(lib, n) == n \in DOMAIN lib.els \/ n \in DOMAIN DS.elements
HasEl(lib, n) == IF n \in DOMAIN lib.els THEN ~IsVoid(lib.els[n]) ELSE n \in Known
El(lib, n) == IF n \in DOMAIN lib.els THEN lib.els[n] ELSE Built(lib.kind, n)
\* name, number, mass and so on do not depend on the tables
InfoEl(lib, n) == IF n \in DOMAIN lib.els THEN lib.els[n] ELSE Bare(n)
MassOf(lib, n) == InfoEl(lib, n).mass
\* an element with unspecified tables (its name, mass and so on remain)
SetEl(lib, n, el) == [lib EXCEPT !.els = Put(@, n, el), !.order = IF n \in Range(@) THEN @ ELSE Append(@, n)]
Broken(lib, n) == SetEl(lib, n, Void @@ InfoEl(lib, n))

\* ---------------------------------------------------------------- formulas and materials
\* answers about composition: a map of mass fractions, the empty map (not understood), Err or Star
IsErr(x) == "err" \in DOMAIN x
Plain2(x) == ~IsStar(x) /\ ~IsErr(x) /\ DOMAIN x # {}
\* mass fractions out of numbers of atoms
FormulaFractions(lib, f) ==
  LET p == Parse(f) IN
  IF IsStar(p) \/ DOMAIN p = {} THEN p
  ELSE IF \E k \in DOMAIN p : ~Defined(lib, k) THEN EmptyMap
  ELSE LET w == Deep([k \in DOMAIN p |-> FMul(p[k], MassOf(lib, k))])
           t == FSumMap(w)
       IN Deep([k \in DOMAIN w |-> FDiv(w[k], t)])
Normal(m) == LET t == FSumMap(m) IN Deep([k \in DOMAIN m |-> FDiv(m[k], t)])
MatIndex(mats, n) == IF \E i \in 1..Len(mats) : mats[i].name = n THEN CHOOSE i \in 1..Len(mats) : mats[i].name = n /\ \A k \in 1..(i-1) : mats[k].name # n ELSE 0

RECURSIVE Nested(_, _, _, _)
\* constituents are resolved in alphabetical order; the first that cannot be decides
MixedIn(lib, c, extra, inside) ==
  LET q == SortedStrings(DOMAIN c)
      r == Deep([i \in 1..Len(q) |-> Nested(lib, q[i], extra, inside)])
      bad == {i \in 1..Len(q) : ~Plain2(r[i])}
  IN IF bad # {} THEN r[Min(bad)]
     ELSE FoldLeft(LAMBDA a, i : AddMap(a, r[i], c[q[i]]), EmptyMap, [i \in 1..Len(q) |-> i])
\* inside: the names of the materials in whose definition this one is found; a material that contains itself is refused
Nested(lib, name, extra, inside) ==
  LET f == FormulaFractions(lib, name) IN
  IF IsStar(f) \/ DOMAIN f # {} THEN f
  ELSE LET i == MatIndex(lib.mats, name)
           k == MatIndex(extra, name)
           own(in) == IF i = 0 THEN EmptyMap
                      ELSE IF name \in in \/ DOMAIN lib.mats[i].composition = {} THEN Err
                      ELSE MixedIn(lib, Normal(lib.mats[i].composition), <<>>, in \cup {name})
       IN IF Len(extra) = 0 THEN own(inside)
          ELSE LET c == IF k = 0 THEN own({}) ELSE IF name \in inside THEN Err ELSE extra[k].composition IN
               IF IsStar(c) \/ IsErr(c) THEN c
               ELSE IF DOMAIN c = {} THEN Err
               ELSE LET m == MixedIn(lib, c, extra, inside \cup {name}) IN IF Plain2(m) THEN Normal(m) ELSE m
Mixed(lib, c, extra) == MixedIn(lib, c, extra, {})
Composition(lib, name, extra) == Nested(lib, name, extra, {})
MapComposition(lib, c, extra) == LET m == Mixed(lib, c, extra) IN IF Plain2(m) THEN Normal(m) ELSE m
Answer(m) == IF IsStar(m) THEN "*" ELSE IF IsErr(m) THEN Err ELSE Ok(m)

\* ---------------------------------------------------------------- attenuation of mixtures
MuKeys == {"energy", "coherent", "compton", "pair", "photoelectric", "total"}
\* coefficients of one element, kept for elements as built: the energies of lines come back again and again
ElMu(lib, n, E) == IF n \in DOMAIN lib.els THEN MuAt(lib.els[n], E) ELSE Memo("mu " \o lib.kind \o " " \o n \o " " \o E, Deep(MuAt(Built(lib.kind, n), E)))
\* fractions by element, divided by total
MixAt(lib, c, total, E) ==
  LET q == SetToSeq(DOMAIN c)
      m == Deep([i \in 1..Len(q) |-> ElMu(lib, q[i], E)])
      f == Deep([i \in 1..Len(q) |-> FDiv(c[q[i]], total)])
      s(k) == FSumSeq([i \in 1..Len(q) |-> FMul(f[i], m[i][k])])
      v == Deep([k \in {"coherent", "compton", "pair", "photoelectric"} |-> s(k)])
  IN Deep([k \in MuKeys |-> CASE k = "energy" -> E [] k = "total" -> FSumMap(v) [] OTHER -> v[k]])
ElExcite(lib, n, E) == IF n \in DOMAIN lib.els THEN ExciteAt(lib.els[n], E, One) ELSE Memo("exc " \o lib.kind \o " " \o n \o " " \o E, ExciteBy(Built(lib.kind, n), BuiltDecay(lib.kind, n), ElMu(lib, n, E), One))
\* fractions adding to one
LayerMu(lib, c, E) ==
  LET q == SetToSeq(DOMAIN c)
      m == Deep([i \in 1..Len(q) |-> ElMu(lib, q[i], E)])
      s(k) == FSumSeq([i \in 1..Len(q) |-> FMul(c[q[i]], m[i][k])])
      v == Deep([k \in {"coherent", "compton", "pair", "photoelectric"} |-> s(k)])
  IN Deep([k \in DOMAIN v \cup {"total"} |-> IF k = "total" THEN FSumMap(v) ELSE v[k]])
AllReady(lib, c) == \A n \in DOMAIN c : MuReady(El(lib, n))
AllKnown(lib, c) == \A n \in DOMAIN c : HasEl(lib, n)
\* what a map of names and fractions stands for: [res] a map as above, [total]
Resolve(lib, c, asIs) ==
  IF asIs THEN [m |-> IF \E n \in DOMAIN c : ~Defined(lib, n) THEN Err ELSE c, total |-> One]
  ELSE LET t == FSumMap(c)
           r == [n \in DOMAIN c |-> Composition(lib, n, <<>>)]
       IN IF \E n \in DOMAIN c : FLt(c[n], Zero) THEN [m |-> Err, total |-> t]
          ELSE IF \E n \in DOMAIN c : IsStar(r[n]) THEN [m |-> Star, total |-> t]
          ELSE IF (\E n \in DOMAIN c : ~Plain2(r[n])) \/ ~FPos(t) THEN [m |-> Err, total |-> t]
          ELSE [m |-> Mixed(lib, c, <<>>), total |-> t]
MixAnswer(lib, r, F(_)) ==
  IF IsStar(r.m) THEN "*" ELSE IF IsErr(r.m) THEN Err
  ELSE IF ~AllKnown(lib, r.m) THEN "*"
  ELSE IF ~AllReady(lib, r.m) THEN Err
  ELSE Ok(F(r))
MixVec(lib, r, Es) ==
  IF Len(Es) = 0 THEN [k \in MuKeys |-> <<>>] ELSE Vectors(LAMBDA E : MixAt(lib, r.m, r.total, E), Es)
NamedMu(lib, n, F(_), G(_)) ==
  IF Defined(lib, n) THEN IF ~HasEl(lib, n) THEN "*" ELSE IF MuReady(El(lib, n)) THEN Ok(F(El(lib, n))) ELSE Err
  ELSE LET c == Composition(lib, n, <<>>) IN
       IF IsStar(c) THEN "*" ELSE IF ~Plain2(c) THEN Err ELSE MixAnswer(lib, Resolve(lib, c, FALSE), G)

\* ---------------------------------------------------------------- peak families
\* shells of the K, L and M groups that are ionised and fluoresce, by increasing binding energy
FamilySet(lib, n, E) ==
  LET el == El(lib, n) IN
  {<<n \o " " \o s, el.be[s]>> : s \in {x \in ExcitedShells(el, E) : SAt(x, 1) \in Mains /\ FPos(el.shells[x].const["omega"])}}
FamilyOrder(a, b) == FLt(a[2], b[2]) \/ (FEq(a[2], b[2]) /\ SLt(a[1], b[1]))
Families(lib, names, E) ==
  IF \E i \in 1..Len(names) : ~Defined(lib, names[i]) THEN Err
  ELSE IF \E i \in 1..Len(names) : ~HasEl(lib, names[i]) THEN "*"
  ELSE LET all == Deep(FoldLeft(LAMBDA a, n : a \o SetToSeq(FamilySet(lib, n, E)), <<>>, names)) IN
       Ok(SortSeq(all, FamilyOrder))

\* ---------------------------------------------------------------- escape peaks of a detector material
Escape(lib, e, E) ==
  LET c == e.comp
      aa == Get(e, "alphaIn", "90.0")
      sn == IF FEq(aa, "90.0") THEN One ELSE FAbs(FSinDeg(aa))
      mx == Deep(Mixed(lib, c, <<>>))
      whole == FSumMap(c)
      mu(x) == MixAt(lib, mx, whole, x).total
      mi == mu(E)
      d == Get(e, "thickness", Zero)
      eff == FSub(One, FExp(FNeg(FDiv(FMul(mi, d), sn))))
      one == Deep([n \in DOMAIN c |-> ElExcite(lib, n, E)])
      f == Deep([n \in DOMAIN c |-> [l \in DOMAIN one[n] |-> [rate |-> FMul(c[n], one[n][l].rate), energy |-> one[n][l].energy]]])
      P == UNION {{<<n, l>> : l \in DOMAIN f[n]} : n \in DOMAIN c}
      rate(p) == LET t == FMul(sn, FDiv(mu(f[p[1]][p[2]].energy), mi)) IN
                 FMul(FMul(f[p[1]][p[2]].rate, FDiv("0.5", mi)), FSub(One, FMul(t, FLog(FAdd(One, FDiv(One, t))))))
      R == Deep([p \in P |-> rate(p)])
      Keep == {p \in P : FGt(R[p], Get(e, "iThr", "1.0E-7"))}
      key(p) == p[1] \o "_" \o p[2] \o "esc"
  IN [k \in {key(p) : p \in Keep} |->
       LET p == CHOOSE x \in Keep : key(x) = k IN
       [rate |-> IF FPos(d) THEN FDiv(R[p], eff) ELSE R[p], energy |-> FSub(E, f[p[1]][p[2]].energy)]]
EscapeOk(lib, c, E) ==
  LET r == Resolve(lib, c, FALSE) IN
  IF IsStar(r.m) THEN "*" ELSE IF IsErr(r.m) \/ \E n \in DOMAIN c : ~Defined(lib, n) THEN "err"
  ELSE IF ~AllKnown(lib, r.m) THEN "*"
  ELSE IF ~AllReady(lib, r.m) THEN "err"
  \* the vacancies of an element given or changed by the user may not be able to cascade
  ELSE LET own == DOMAIN c \cap DOMAIN lib.els IN
       IF \E n \in own : ~CascadeValid(lib.els[n], VacancyDist(lib.els[n], E)) THEN "err"
       ELSE IF \E n \in own : StaleCascade(lib.els[n]) THEN "*" ELSE "ok"

\* ---------------------------------------------------------------- data files
FileAnswer == {"ok", "err", "void"}
\* the tables of the data directory by file name
DataTable(what, b) ==
  CASE what = "const" /\ \E m \in Mains : b = "EADL97_" \o m \o "ShellConstants.dat" -> DS.const.eadl
    [] what = "const" /\ \E m \in Mains : b = m \o "ShellConstants.dat" -> DS.const.pymca
    [] what = "rad" /\ \E m \in Mains : b = "EADL97_" \o m \o "ShellRadiativeRates.dat" -> DS.rad.eadl
    [] what = "rad" /\ \E m \in Mains : b = m \o "ShellRates.dat" -> DS.rad.pymca
    [] what = "nonrad" /\ \E m \in Mains : b = "EADL97_" \o m \o "ShellNonradiativeRates.dat" -> DS.nonrad.eadl
    [] OTHER -> EmptyMap
ConstLabel(l) == IF Len(l) > 4 THEN IF SPrefix("omega", l) THEN "omega" ELSE "" ELSE l
\* the table of one subshell (sequence of rows) of a script's own file
ShellRows(what, s) ==
  LET L == Deep(SelectSeq([i \in 1..Len(s.labels) |-> i], LAMBDA i : s.labels[i] # "Z" /\ (what = "const" => ConstLabel(s.labels[i]) # "")))
      key(i) == IF what = "const" THEN ConstLabel(s.labels[i]) ELSE s.labels[i]
  IN [r \in 1..Len(s.rows) |-> MapOf([i \in 1..Len(L) |-> key(L[i])], [i \in 1..Len(L) |-> s.rows[r][L[i]]])]
ShellScans(m) == CASE m = "K" -> 1 [] m = "L" -> 3 [] m = "M" -> 5
Apply(what, el, T) == CASE what = "const" -> Dirty([ApplyConst(el, T) EXCEPT !.cas = "empty"]) [] what = "rad" -> CascadeStale(Dirty(ApplyRad(el, T))) [] what = "nonrad" -> CascadeStale(Dirty(ApplyNonrad(el, T)))
TableFits(what, el, T) ==
  \A s \in DOMAIN T :
    CASE what = "const" -> s \in DOMAIN el.shells /\ ConstOk(el.shells[s], T[s])
      [] what = "rad" -> Binds(el, s) => RadOk(s, SetToSeq(DOMAIN T[s]))
      [] OTHER -> TRUE
\* applies T(name) to the named elements
LoadInto(lib, what, names, T(_), tag) ==
  LET K == {n \in names : HasEl(lib, n)} IN
  IF \E n \in K : ~TableFits(what, El(lib, n), T(n)) THEN Void
  ELSE [lib EXCEPT !.els = Deep([n \in K |->
         IF tag = "" \/ n \in DOMAIN lib.els THEN Apply(what, El(lib, n), T(n))
         ELSE Memo(tag \o " " \o lib.kind \o " " \o n, Deep(Apply(what, Built(lib.kind, n), T(n))))]) @@ @]

MuColumn(labels, key) ==
  LET hit(l) == LET u == Deep(SUpper(l)) IN
        LET has(p) == \E i \in 1..Len(u) : SPrefix(p, SubSeq(u, i, Len(u))) IN
        CASE key = "energy" -> has("ENERGY") [] key = "photoelectric" -> has("PHOTO") [] key = "pair" -> has("PAIR")
          [] key = "compton" -> has("COMPTON") [] key = "coherent" -> has("RAYLEIGH") \/ (has("COHERENT") /\ ~has("INCOHERENT"))
      K == {i \in 1..Len(labels) : hit(labels[i])}
  IN IF K = {} THEN 0 ELSE Max(K)
MuOfScan(s) ==
  [k \in {"energy", "photoelectric", "coherent", "compton", "pair"} |->
     LET c == Deep(MuColumn(s.labels, k)) IN IF c = 0 THEN <<>> ELSE Deep([i \in 1..Len(s.rows) |-> s.rows[i][c]])]
RECURSIVE LoadMu(_, _, _, _)
LoadMu(lib, st, f, k) ==
  IF IsVoid(lib) \/ k > ScansIn(st, f) THEN lib
  ELSE LET s == Deep(ScanOf(st, f, k)) IN
       IF s = Err \/ k > Len(lib.order) THEN Void
       ELSE LET e == Deep(MuOfScan(s.ok)) n == lib.order[k] IN
            IF ~SupplyOk(e) THEN Void
            ELSE LoadMu(IF ~HasEl(lib, n) \/ ~HasData(El(lib, n).z) THEN Broken(lib, n)
                        ELSE LET r == Supply(El(lib, n), e) IN IF IsVoid(r) THEN Void ELSE IF IsStar(r) THEN Broken(lib, n) ELSE SetEl(lib, n, r), st, f, k + 1)

\* ---------------------------------------------------------------- operations
NewMaterial(n, c, d, t) == [name |-> n, comment |-> c, density |-> d, thickness |-> t, composition |-> EmptyMap]
MatOk(n, d, t) == Len(n) > 0 /\ FPos(d) /\ FPos(t)
AmountsOk(e) == Len(e.names) = Len(e.amounts) /\ \A i \in 1..Len(e.amounts) : FPos(e.amounts[i])
\* repeated substances add up; as a map a repeated name counts once
Amounts(e) ==
  IF Get(e, "form", "map") = "map" THEN Normal(MapOf(e.names, e.amounts))
  ELSE Normal(Deep([n \in Range(e.names) |-> FSumSeq([i \in 1..Len(e.names) |-> IF e.names[i] = n THEN e.amounts[i] ELSE Zero])]))
MatFormOk(e) == IF Get(e, "form", "map") = "map" THEN \A n \in Range(e.names) : FPos(MapOf(e.names, e.amounts)[n]) ELSE AmountsOk(e)
WithFormula(lib, m) ==
  LET f == FormulaFractions(lib, m.name) IN IF IsStar(f) THEN Void ELSE [m EXCEPT !.composition = f]
MatOut(m) == Ok(m)

LibQuery(lib, st, e) ==
  LET q == e.q
      n == Get(e, "name", "")
      named(F(_)) == IF ~Defined(lib, n) THEN Err ELSE F(InfoEl(lib, n))
      el(F(_)) == IF ~Defined(lib, n) THEN Err ELSE IF HasEl(lib, n) THEN F(El(lib, n)) ELSE "*"
      extra == LET m == Get(e, "mats", <<>>) IN [i \in 1..Len(m) |-> st.mat[m[i]]]
  IN CASE q = "defined" -> Ok(IF Defined(lib, n) THEN 1 ELSE 0)
       [] q = "names" -> Ok(lib.order)
       [] q = "matNames" -> Ok([i \in 1..Len(lib.mats) |-> lib.mats[i].name])
       [] q \in {"mat", "matCopy"} -> LET i == MatIndex(lib.mats, n) IN IF i = 0 THEN Err ELSE MatOut(lib.mats[i])
       [] q = "createMat" -> IF ~MatOk(n, Get(e, "density", One), Get(e, "thickness", One)) THEN Err
                             ELSE LET m == WithFormula(lib, NewMaterial(n, Get(e, "comment", ""), Get(e, "density", One), Get(e, "thickness", One)))
                                  IN IF IsVoid(m) THEN "*" ELSE Ok(m)
       [] q = "parse" -> Answer(Parse(e.formula))
       [] q = "compFormula" -> Answer(FormulaFractions(lib, e.formula))
       [] q = "comp" -> Answer(Composition(lib, n, <<>>))
       [] q = "compAdd" -> Answer(Composition(lib, n, extra))
       [] q = "compMap" -> Answer(MapComposition(lib, e.comp, extra))
       [] q = "mass" -> named(LAMBDA x : Ok(x.mass))
       [] q = "z" -> named(LAMBDA x : Ok(x.z))
       [] q = "density" -> named(LAMBDA x : Ok(x.density))
       [] q = "longName" -> named(LAMBDA x : Ok(x.longName))
       [] q = "column" -> named(LAMBDA x : Ok(x.column))
       [] q = "row" -> named(LAMBDA x : Ok(x.row))
       [] q = "mu" -> NamedMu(lib, n, LAMBDA x : MuAt(x, e.energy), LAMBDA r : MixAt(lib, r.m, r.total, e.energy))
       [] q = "muvec" -> NamedMu(lib, n, LAMBDA x : Vectors(LAMBDA E : MuAt(x, E), e.energies), LAMBDA r : MixVec(lib, r, e.energies))
       [] q = "mumap" -> MixAnswer(lib, Resolve(lib, e.comp, Get(e, "isComposition", 0) # 0), LAMBDA r : MixAt(lib, r.m, r.total, e.energy))
       [] q = "mumapvec" -> IF Len(e.energies) = 0 /\ ~IsErr(Resolve(lib, e.comp, Get(e, "isComposition", 0) # 0).m) THEN Ok([k \in MuKeys |-> <<>>])
                            ELSE MixAnswer(lib, Resolve(lib, e.comp, Get(e, "isComposition", 0) # 0), LAMBDA r : MixVec(lib, r, e.energies))
       [] q = "families" -> LET c == Composition(lib, n, <<>>) IN
                            IF IsStar(c) THEN "*" ELSE IF ~Plain2(c) THEN Err ELSE Families(lib, SortedStrings(DOMAIN c), e.energy)
       [] q = "familiesList" -> Families(lib, e.names, e.energy)
       [] q \in {"constFile", "radFile", "nonradFile"} ->
            IF e.shell \in Mains THEN Ok(lib.files[SubSeq(q, 1, Len(q) - 4)][e.shell]) ELSE Err
       [] q = "escapeEnabled" -> Ok(IF lib.escOn # 0 THEN 1 ELSE 0)
       [] q = "escape" -> LET k == EscapeOk(lib, e.comp, e.energy) IN
                          IF k = "*" THEN "*" ELSE IF k = "err" THEN Err ELSE Ok(Escape(lib, e, e.energy))
       [] OTHER -> el(LAMBDA x : ElementQuery(x, e @@ [energy |-> "1000.0"]))

LibSet(st, id, lib) == [st EXCEPT !.lib = Put(@, id, lib)]
LibDo(st, e) ==
  LET done(s) == [st |-> s, res |-> <<Ok("*")>>]
      fail == [st |-> st, res |-> <<Err>>]
      say(r) == [st |-> st, res |-> <<r>>]
      set(lib) == done(LibSet(st, e.id, lib))
      void == [st |-> LibSet(st, e.id, Void), res |-> <<Err>>]
  IN
  IF e.op = "lib.new" THEN
       LET form == Get(e, "form", "dir")
           good == e.dir = "data" \/ (e.dir = "" /\ form = "dir")
           d == "data"
       IN IF ~good THEN fail
          ELSE IF form = "dir" \/ (form = "pymca" /\ e.flag = 0) THEN set(NewLibrary("epdl", d))
          ELSE IF form = "pymca" THEN set(NewLibrary("pymca", d))
          ELSE IF e.binding # "data/BindingEnergies.dat" \/ Get(e, "xsec", "") \notin {"", "data/XCOM_CrossSections.dat"} THEN fail
          ELSE set(NewLibrary(IF Get(e, "xsec", "") = "" THEN "files0" ELSE "files1", d))
  ELSE IF e.op = "lib.copy" THEN set(st.lib[e.from])
  ELSE LET id == IF e.op \in {"lib.getElement", "lib.getElementRef"} THEN e.lib ELSE e.id IN
  IF IsVoid(st.lib[id]) THEN
    IF e.op \in {"lib.getElement", "lib.getElementRef"} THEN [st |-> [st EXCEPT !.el = Put(@, e.id, Void)], res |-> <<"*">>] ELSE say("*")
  ELSE LET lib == st.lib[id] IN
    CASE e.op = "lib.addElement" ->
           LET el == st.el[e.el] IN
           IF IsVoid(el) THEN [st |-> LibSet(st, e.id, Void), res |-> <<"*">>] ELSE set(SetEl(lib, el.name, el))
      [] e.op \in {"lib.getElement", "lib.getElementRef"} ->
           IF ~Defined(lib, e.name) THEN fail
           ELSE done([st EXCEPT !.el = Put(@, e.id, IF HasEl(lib, e.name) THEN El(lib, e.name) ELSE Void)])
      [] e.op = "lib.load" ->
           IF e.what = "mu" THEN
             IF InData(e.file) THEN
               IF Base0(e.file) # "XCOM_CrossSections.dat" THEN fail
               ELSE set([lib EXCEPT !.els = Deep([n \in {x \in DOMAIN DS.xcom : HasEl(lib, x)} |->
                      IF n \in DOMAIN lib.els THEN Supply(lib.els[n], DS.xcom[n])
                      ELSE Memo("xcom " \o lib.kind \o " " \o n, Deep(Supply(Built(lib.kind, n), DS.xcom[n])))]) @@ @])
             ELSE IF ScansIn(st, e.file) < 1 THEN fail
             ELSE LET r == LoadMu(lib, st, e.file, 1) IN IF IsVoid(r) THEN void ELSE set(r)
           ELSE IF e.shell \notin Mains THEN fail
           ELSE IF InData(e.file) THEN
                  LET D == DataTable(e.what, Base0(e.file)) IN
                  IF DOMAIN D = {} \/ SAt(Base0(e.file), IF SPrefix("EADL97_", Base0(e.file)) THEN 8 ELSE 1) # e.shell THEN fail
                  ELSE LET r == LoadInto(lib, e.what, {n \in Known : DOMAIN D[n] # {}}, LAMBDA n : Only(D[n], Range(SubsOf(e.shell))), e.what \o " " \o e.file) IN
                       IF IsVoid(r) THEN void ELSE set([r EXCEPT !.files[e.what][e.shell] = e.file])
           ELSE IF ScansIn(st, e.file) # ShellScans(e.shell) THEN fail
           ELSE LET subs == SubsOf(e.shell)
                    sc == Deep([k \in 1..Len(subs) |-> ScanOf(st, e.file, k)])
                IN IF \E k \in 1..Len(subs) : sc[k] = Err THEN void
                   ELSE LET rows == Deep([k \in 1..Len(subs) |-> Deep(ShellRows(e.what, sc[k].ok))])
                            most == Max({Len(rows[k]) : k \in 1..Len(subs)})
                            T(n) == LET i == CHOOSE j \in 1..Len(lib.order) : lib.order[j] = n IN
                                    [s \in {subs[k] : k \in {x \in 1..Len(subs) : Len(rows[x]) >= i}} |-> rows[CHOOSE k \in 1..Len(subs) : subs[k] = s][i]]
                        IN IF most > Len(lib.order) THEN void
                           ELSE LET r == LoadInto(lib, e.what, {lib.order[i] : i \in 1..most}, T, "") IN
                                IF IsVoid(r) THEN void ELSE set([r EXCEPT !.files[e.what][e.shell] = e.file])
      [] e.op = "lib.setMu" ->
           IF ~Defined(lib, e.name) \/ ~SupplyOk(e) THEN fail
           ELSE IF ~HasEl(lib, e.name) \/ ~HasData(El(lib, e.name).z) THEN [st |-> LibSet(st, e.id, Broken(lib, e.name)), res |-> <<"*">>]
           ELSE LET r == Supply(El(lib, e.name), e) IN
                IF IsVoid(r) \/ IsStar(r) THEN [st |-> LibSet(st, e.id, Broken(lib, e.name)), res |-> <<IF IsStar(r) THEN "*" ELSE Err>>] ELSE set(SetEl(lib, e.name, r))
      [] e.op = "lib.addMaterial" ->
           LET replace == Get(e, "errorOnReplace", 1) = 0 IN
           IF Has(e, "mat") THEN
             LET m == st.mat[e.mat] i == MatIndex(lib.mats, m.name) IN
             IF i = 0 THEN set([lib EXCEPT !.mats = Append(@, m)])
             ELSE IF replace THEN set([lib EXCEPT !.mats[i] = m]) ELSE fail
           ELSE LET d == Get(e, "density", One) t == Get(e, "thickness", One) i == MatIndex(lib.mats, e.name) IN
                IF ~MatOk(e.name, d, t) \/ (i > 0 /\ ~replace) THEN fail
                ELSE LET m == WithFormula(lib, NewMaterial(e.name, Get(e, "comment", ""), d, t))
                         rest == IF i = 0 THEN lib.mats ELSE SubSeq(lib.mats, 1, i - 1) \o SubSeq(lib.mats, i + 1, Len(lib.mats))
                     IN IF IsVoid(m) THEN [st |-> LibSet(st, e.id, Void), res |-> <<"*">>]
                        ELSE set([lib EXCEPT !.mats = Append(rest, m)])
      [] e.op = "lib.setMatComp" ->
           LET i == MatIndex(lib.mats, e.name) IN
           IF i = 0 \/ ~MatFormOk(e) THEN fail ELSE set([lib EXCEPT !.mats[i].composition = Amounts(e)])
      [] e.op = "lib.removeMaterial" ->
           LET i == MatIndex(lib.mats, e.name) IN
           IF i = 0 THEN fail ELSE set([lib EXCEPT !.mats = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
      [] e.op = "lib.removeMaterials" -> set([lib EXCEPT !.mats = <<>>])
      [] e.op = "lib.cache" ->
           IF e.what = "escapeEnable" THEN set([lib EXCEPT !.escOn = e.flag])
           ELSE IF e.what = "escapeClear" THEN set(lib)
           ELSE IF e.what = "escapeUpdate" THEN
                  IF Len(e.energies) = 0 THEN set(lib)
                  ELSE LET k == Deep([i \in 1..Len(e.energies) |-> EscapeOk(lib, e.comp, e.energies[i])]) IN
                       IF k[1] = "*" THEN say("*") ELSE IF "err" \in Range(k) THEN fail ELSE set(lib)
           ELSE IF ~Defined(lib, e.name) THEN fail
           ELSE IF ~HasEl(lib, e.name) THEN say("*")
           ELSE IF CacheFails(El(lib, e.name), e) THEN [st |-> LibSet(st, e.id, Broken(lib, e.name)), res |-> <<Err>>]
           ELSE set(SetEl(lib, e.name, ElementCache(El(lib, e.name), e)))
      [] e.op = "lib.q" -> say(LibQuery(lib, st, e))

MaterialDo(st, e) ==
  LET set(m) == [st |-> [st EXCEPT !.mat = Put(@, e.id, m)], res |-> <<Ok("*")>>]
      say(r) == [st |-> st, res |-> <<r>>]
      d == Get(e, "density", One)
      t == Get(e, "thickness", One)
      init == [name |-> e.name, comment |-> Get(e, "comment", ""), density |-> d, thickness |-> t]
  IN CASE e.op = "mat.new" -> IF MatOk(e.name, d, t) THEN set(init @@ [composition |-> EmptyMap]) ELSE say(Err)
       [] e.op = "mat.default" -> set([unset |-> TRUE] @@ NewMaterial("Unset name", "", One, One))
       [] OTHER ->
          LET m == st.mat[e.id]
              named(x) == [k \in DOMAIN x \ {"unset"} |-> x[k]]
          IN CASE e.op = "mat.setName" -> IF "unset" \in DOMAIN m /\ Len(e.name) > 0 THEN set([named(m) EXCEPT !.name = e.name]) ELSE say(Err)
               [] e.op = "mat.init" -> IF MatOk(e.name, d, t) THEN set(init @@ [composition |-> m.composition]) ELSE say(Err)
               [] e.op = "mat.setComp" -> IF MatFormOk(e) THEN set([m EXCEPT !.composition = Amounts(e)]) ELSE say(Err)
               [] e.op = "mat.get" -> say(Ok(named(m)))
=============================================================================
