------------------------------- MODULE Config -------------------------------
(* The configuration of an experiment: beam, filters, sample, attenuators,    *)
(* detector and geometry; set piece by piece or read from a PyMca file.       *)
EXTENDS Layers, Text

NewConfig ==
  [beam |-> <<>>, filters |-> <<>>, sample |-> <<>>, attenuators |-> <<>>, userFilters |-> <<>>, userAttenuators |-> <<>>,
   detector |-> NewDetector(EmptyMap), alphaIn |-> "45.0", alphaOut |-> "45.0", scattering |-> "90.0", reference |-> 0, materials |-> <<>>,
   \* the parts nothing is known about, after a file refused half way
   unknown |-> {}]
Parts == DOMAIN NewConfig \ {"unknown"}
Change(c, m) == [k \in DOMAIN c |-> IF k = "unknown" THEN c.unknown \ DOMAIN m ELSE IF k \in DOMAIN m THEN m[k] ELSE c[k]]
All(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
ConfigOut(c, beam) ==
  [k \in Parts |->
     IF k \in c.unknown THEN "*"
     ELSE CASE k = "beam" -> beam
            [] k \in {"filters", "sample", "attenuators"} -> All(c[k], LayerOut)
            [] k = "detector" -> DetectorOut(c.detector)
            [] OTHER -> c[k]]
ConfigAnswers(c) ==
  IF "beam" \in c.unknown THEN <<Ok(ConfigOut(c, <<>>))>>
  ELSE LET o == Deep(Orders(c.beam)) IN [k \in 1..Len(o) |-> Ok(ConfigOut(c, Columns(c.beam, o[k])))]

\* ---- piece by piece
SampleOk(layers, ref) == ref < Len(layers)
ConfigSet(st, c, e) ==
  LET w == e.what
      lays == [i \in 1..Len(Get(e, "layers", <<>>)) |-> st.lay[e.layers[i]]]
      tabs == [i \in 1..Len(Get(e, "tables", <<>>)) |-> st.tt[e.tables[i]]]
      to(m) == Change(c, m)
  IN CASE w = "beam" -> IF Has(e, "beam") THEN to([beam |-> st.beam[e.beam]]) ELSE IF BeamOk(e) THEN to([beam |-> SetBeam(e)]) ELSE Void
       [] w = "single" -> to([beam |-> SingleBeam(e)])
       [] w = "filters" -> to([filters |-> lays])
       [] w = "userFilters" -> to([userFilters |-> tabs])
       [] w = "sample" -> IF SampleOk(lays, Get(e, "ref", 0)) THEN to([sample |-> lays, reference |-> Get(e, "ref", 0)]) ELSE Void
       [] w = "sample1" -> to([sample |-> <<st.lay[e.layer]>>, reference |-> 0])
       [] w = "sampleName" -> to([sample |-> <<NewLayer([name |-> e.name, density |-> Get(e, "density", One), thickness |-> Get(e, "thickness", One)])>>, reference |-> 0])
       [] w = "attenuators" -> to([attenuators |-> lays])
       [] w = "userAttenuators" -> to([userAttenuators |-> tabs])
       [] w = "detector" -> to([detector |-> st.det[e.det]])
       [] w = "geometry" ->
            to([alphaIn |-> e.alphaIn, alphaOut |-> e.alphaOut,
                scattering |-> IF e.op = "xrf.set" /\ (~Has(e, "scattering") \/ FLt(e.scattering, Zero)) THEN FAdd(e.alphaIn, e.alphaOut) ELSE Get(e, "scattering", "90.0")])

\* ---- from a file
Ints(s, d) == LET p == Pieces(s, ",") IN [i \in 1..Len(p) |-> AsInt(p[i], d)]
Keys(sec) == SortedStrings(DOMAIN sec)
DotName(s) == LET w == WordsOf(s, ".", "") IN IF Len(w) > 1 THEN w[2] ELSE ""
LastOf(q, P(_), d) == LET K == {i \in 1..Len(q) : P(q[i])} IN IF K = {} THEN d ELSE q[Max(K)]
\* the value of the last key, in alphabetical order, that is one of names whatever its case
Named3(sec, names, d) == LET k == LastOf(Keys(sec), LAMBDA x : SUpper(x) \in names, "*none*") IN IF k = "*none*" THEN d ELSE sec[k]
CommentOf(sec, names) == LET k == LastOf(Keys(sec), LAMBDA x : SUpper(x) \notin names, "*none*") IN IF k = "*none*" THEN "" ELSE sec[k]

BeamOfFile(sec) ==
  LET E == Deep(Doubles(Get(sec, "energy", ""), "-666.0"))
      n == Len(E)
      fill(q, v) == IF Len(q) = 0 THEN [i \in 1..n |-> v] ELSE q
      W == Deep(fill(Doubles(Get(sec, "energyweight", ""), "-1.0"), One))
      C == Deep(fill(Ints(Get(sec, "energyscatter", ""), -1), 1))
      F == Deep(fill(Ints(Get(sec, "energyflag", ""), 0), 1))
      used == SelectSeq([i \in 1..n |-> i], LAMBDA i : F[i] > 0 /\ ~FEq(E[i], "-666.0"))
      ok == \A i \in Range(used) : FPos(E[i]) /\ ~FLt(W[i], Zero)
  IN IF Len(F) > n \/ Len(W) < Len(F) \/ Len(C) < Len(F) THEN Err
     ELSE IF Len(F) # n \/ Len(W) # n \/ Len(C) # n THEN Star
     ELSE IF ~ok THEN Err
     ELSE Ok(SetBeam([energy |-> All(used, LAMBDA i : E[i]), weight |-> All(used, LAMBDA i : W[i]),
                      characteristic |-> All(used, LAMBDA i : IF C[i] < 0 THEN 0 ELSE C[i])]))

MatKeys == {"DENSITY", "THICKNESS", "COMPOUNDLIST", "COMPOUNDFRACTION", "COMPOUNDFRACTIONS"}
MaterialOfFile(x, s) ==
  LET sec == Deep(Section(x, s, TRUE))
      has(k) == \E y \in DOMAIN sec : SUpper(y) = k
      m == [name |-> DotName(s), comment |-> CommentOf(sec, MatKeys),
            density |-> IF has("DENSITY") THEN AsDouble(Named3(sec, {"DENSITY"}, ""), "-1.0") ELSE One,
            thickness |-> IF has("THICKNESS") THEN AsDouble(Named3(sec, {"THICKNESS"}, ""), "-1.0") ELSE One]
      e == [names |-> WordsOf(Named3(sec, {"COMPOUNDLIST"}, ""), ",", ""), amounts |-> Doubles(Named3(sec, {"COMPOUNDFRACTION", "COMPOUNDFRACTIONS"}, ""), "-1.0"), form |-> "vec"]
  IN IF MatOk(m.name, m.density, m.thickness) /\ MatFormOk(e) THEN m @@ [composition |-> Amounts(e)] ELSE Void

TabKeys == {"ENERGY", "TRANSMISSION", "USE"}
\* the tables in use, in the order of the file
TablesOfFile(x, parent) ==
  LET S == Subsections(x, parent, FALSE)
      sec(s) == Deep(Section(x, s, TRUE))
      used == SelectSeq(S, LAMBDA s : FPos(AsDouble(Named3(sec(s), {"USE"}, ""), Zero)))
      t0 == NewTable("", "")
      e(s) == [name |-> DotName(s), comment |-> CommentOf(sec(s), TabKeys),
               energy |-> Doubles(Named3(sec(s), {"ENERGY"}, ""), "-1.0"), transmission |-> Doubles(Named3(sec(s), {"TRANSMISSION"}, ""), "-1.0")]
  IN IF \E i \in 1..Len(S) : Len(WordsOf(S[i], ".", "")) < 2 THEN <<Void>>       \* a section without a name
     ELSE All(used, LAMBDA s : IF TableOk(t0, e(s)) THEN SetTable(t0, e(s)) ELSE Void)

\* a line of the attenuators or multilayer section
RowOf(sec, k) == [key |-> k, v |-> Deep(Doubles(sec[k], "-1.0")), w |-> Deep(WordsOf(sec[k], ",", ""))]
RowsOf(sec) == SelectSeq(Deep(All(Keys(sec), LAMBDA k : RowOf(sec, k))), LAMBDA r : Len(r.v) > 0 /\ FPos(r.v[1]))
OfMaterial(l, n, mats) == FoldLeft(LAMBDA a, m : IF m.name = n THEN Made(a, m) ELSE a, Named(l, n), mats)
RowLayer(r, f, mats) == OfMaterial(NewLayer([name |-> r.key, density |-> r.v[3], thickness |-> r.v[4], funny |-> f]), r.w[2], mats)
IsFilterRow(r) == Len(r.key) > 0 /\ SubSeq(r.key, 1, Len(r.key) - 1) = "BeamFilter"
IsMatrixRow(r) == ~IsFilterRow(r) /\ Len(r.w) = 8
IsDetectorRow(r) == ~IsFilterRow(r) /\ Len(r.w) # 8 /\ SPrefix("Detector", r.key)
IsAttenuatorRow(r) == ~IsFilterRow(r) /\ Len(r.w) # 8 /\ ~SPrefix("Detector", r.key)
GeometryOf(r) == [alphaIn |-> r.v[5], alphaOut |-> r.v[6], scattering |-> IF FPos(r.v[7]) THEN r.v[8] ELSE FAdd(r.v[5], r.v[6])]
DefaultGeometry == [alphaIn |-> "45.0", alphaOut |-> "45.0", scattering |-> "90.0"]

\* what reading the file makes of a configuration: [no] refused, leaving it as it was; [half] refused half way; [cfg]
ReadConfig(c, lines) ==
  LET x == Ini(lines) IN
  IF ~x.ok THEN [no |-> TRUE]
  ELSE
  LET f1 == Deep(Section(x, "fit", FALSE))
      fit == IF DOMAIN f1 # {} THEN f1 ELSE Deep(Section(x, "result.config", FALSE))
      b == Deep(BeamOfFile(fit))
  IN IF DOMAIN fit = {} \/ IsErr(b) THEN [no |-> TRUE]
     ELSE IF IsStar(b) THEN [unspecified |-> TRUE]
     ELSE
     LET mats == Deep(All(Subsections(x, "Materials", FALSE), LAMBDA s : MaterialOfFile(x, s)))
         uf == Deep(TablesOfFile(x, "UserBeamFilters"))
         ua == Deep(TablesOfFile(x, "UserAttenuators"))
         rows == Deep(RowsOf(Section(x, "attenuators", FALSE)))
         matrix == SelectSeq(rows, IsMatrixRow)
         multi == \E i \in 1..Len(matrix) : matrix[i].w[2] = "MULTILAYER"
         layrows == IF multi THEN Deep(RowsOf(Section(x, "multilayer", FALSE))) ELSE <<>>
         detrows == SelectSeq(rows, IsDetectorRow)
         conc == Deep(Section(x, "concentrations", FALSE))
         cval(k) == AsDouble(Named3(conc, {k}, ""), "-1.0")
         has(k) == \E y \in DOMAIN conc : SUpper(y) = k
         bad == \/ \E i \in 1..Len(mats) : IsVoid(mats[i])
                \/ \E i \in 1..Len(uf) : IsVoid(uf[i])
                \/ \E i \in 1..Len(ua) : IsVoid(ua[i])
                \/ \E i \in 1..Len(rows) : Len(rows[i].v) < 5
                \/ \E i \in 1..Len(layrows) : Len(layrows[i].v) < 4
                \/ \E k \in DOMAIN conc : SUpper(k) = "DISTANCE" /\ ~FPos(AsDouble(conc[k], "-1.0"))
                \/ \E k \in DOMAIN conc : SUpper(k) = "AREA" /\ FLt(AsDouble(conc[k], "-1.0"), Zero)
         d0 == IF Len(detrows) = 0 THEN NewDetector(EmptyMap)
               ELSE LET r == detrows[Len(detrows)] IN
                    [NewDetector(EmptyMap) EXCEPT !.layer = RowLayer(r, r.v[5], mats)]
         d1 == IF has("DISTANCE") THEN [d0 EXCEPT !.distance = cval("DISTANCE")] ELSE d0
         d2 == IF has("AREA") THEN [d1 EXCEPT !.diameter = FSqrt(FDiv(cval("AREA"), Quarter))] ELSE d1
         new == [beam |-> b.ok, materials |-> mats, userFilters |-> uf, userAttenuators |-> ua, reference |-> 0,
                 filters |-> All(SelectSeq(rows, IsFilterRow), LAMBDA r : RowLayer(r, r.v[5], mats)),
                 attenuators |-> All(SelectSeq(rows, IsAttenuatorRow), LAMBDA r : RowLayer(r, r.v[5], mats)),
                 sample |-> All(SelectSeq(matrix, LAMBDA r : r.w[2] # "MULTILAYER"), LAMBDA r : RowLayer(r, One, mats)) \o
                            All(layrows, LAMBDA r : RowLayer(r, One, mats)),
                 detector |-> d2]
     IN IF bad THEN [half |-> TRUE]
        ELSE [cfg |-> Deep(Change(c, (IF Len(matrix) = 0 THEN DefaultGeometry ELSE GeometryOf(matrix[Len(matrix)])) @@ new))]

ConfigRead(st, c, file) == IF ~Exists(st, file) THEN [no |-> TRUE] ELSE ReadConfig(c, st.fs[file])

\* ---- what a configured experiment answers about layers, energies and geometry
\* the materials of the configuration are known besides those of the library
Knows(c) == c.unknown = {}
GeomEff(c, k) ==
  IF FEq(c.detector.diameter, Zero) THEN Ok(One)
  ELSE IF k < 0 \/ (k > 0 /\ k >= Len(c.sample)) THEN Err
  ELSE LET s == FSinDeg(c.alphaOut)
           between(a, b) == FSumSeq([i \in 1..(b - a) |-> FDiv(c.sample[a + i].thickness, s)])
           d == IF k >= c.reference THEN FAdd(c.detector.distance, between(c.reference, k))
                ELSE FSub(c.detector.distance, between(k, c.reference))
           r == FMul("0.5", c.detector.diameter)
       IN Ok(FMul("0.5", FSub(One, FDiv(d, FSqrt(FAdd(FMul(d, d), FMul(r, r)))))))
FirstPositive(be, q) == LET K == {i \in 1..Len(q) : q[i] \in DOMAIN be /\ FPos(be[q[i]])} IN IF K = {} THEN Zero ELSE be[q[Min(K)]]
Threshold(be, fam) ==
  IF fam = "K" \/ Len(fam) = 2 THEN Get(be, fam, Zero)
  ELSE CASE fam = "L" -> FirstPositive(be, <<"L3", "L2", "L1">>)
         [] fam = "M" -> FirstPositive(be, <<"M5", "M4", "M3", "M2", "M1">>)
         [] OTHER -> Zero

ConfigQuery(st, c, e) ==
  IF ~Knows(c) THEN "*"
  ELSE IF e.q = "geomEff" THEN GeomEff(c, Get(e, "layer", 0))
  ELSE LET lib == st.lib[e.lib] IN
  IF IsVoid(lib) THEN "*"
  ELSE IF e.q = "threshold" THEN
         IF ~Defined(lib, e.name) THEN Err ELSE IF ~HasEl(lib, e.name) THEN "*" ELSE Ok(Threshold(El(lib, e.name).be, e.family))
  ELSE LET l == st.lay[e.lay]
           k == Deep(LayerComp(lib, l, c.materials))
       IN CASE e.q = "layComp" -> Answer(k)
            [] e.q = "layMu" -> OfComp(lib, k, LAMBDA r : MixAt(lib, r.m, r.total, e.energy))
            [] e.q = "layMuvec" -> OfComp(lib, k, LAMBDA r : MixVec(lib, r, e.energies))
            [] e.q \in {"layTrans", "layTransvec"} -> TransAnswer(lib, l, k, e)
            [] e.q = "layFamilies" -> IF IsStar(k) THEN "*" ELSE IF IsErr(k) THEN Err ELSE Families(lib, SortedStrings(DOMAIN k), e.energy)

\* ---- operations on configurations (cfg) and experiments (xrf), which hold one
ConfigDo(st, e) ==
  LET x == SubSeq(e.op, 1, 3)
      set(c) == [st |-> [st EXCEPT ![x] = Put(@, e.id, c)], res |-> <<Ok("*")>>]
      say(r) == [st |-> st, res |-> <<r>>]
      lost(c) == [st |-> [st EXCEPT ![x] = Put(@, e.id, [c EXCEPT !.unknown = Parts])], res |-> <<Err>>]
      read(c) == LET r == ConfigRead(st, c, e.file) IN
                 IF "cfg" \in DOMAIN r THEN set(r.cfg)
                 ELSE IF "no" \in DOMAIN r THEN say(Err)
                 ELSE IF "half" \in DOMAIN r THEN lost(c)
                 ELSE [st |-> [st EXCEPT ![x] = Put(@, e.id, [c EXCEPT !.unknown = Parts])], res |-> <<"*">>]
  IN CASE e.op = "xrf.new" -> IF Has(e, "file") THEN
                                LET r == ConfigRead(st, NewConfig, e.file) IN
                                IF "cfg" \in DOMAIN r THEN set(r.cfg) ELSE IF "unspecified" \in DOMAIN r
                                THEN [st |-> [st EXCEPT ![x] = Put(@, e.id, [NewConfig EXCEPT !.unknown = Parts])], res |-> <<"*">>] ELSE say(Err)
                              ELSE set(NewConfig)
       [] e.op = "cfg.new" -> set(NewConfig)
       [] e.op = "xrf.copy" -> set(st.xrf[e.from])
       [] e.op = "cfg.from" -> set(st.xrf[e.xrf])
       [] e.op \in {"xrf.read", "cfg.read"} -> read(st[x][e.id])
       [] e.op \in {"xrf.set", "cfg.set"} -> LET r == ConfigSet(st, st[x][e.id], e) IN IF IsVoid(r) THEN say(Err) ELSE set(r)
       [] e.op \in {"xrf.get", "cfg.get"} -> [st |-> st, res |-> ConfigAnswers(st[x][e.id])]
       [] e.op = "xrf.q" -> say(ConfigQuery(st, st.xrf[e.id], e))
=============================================================================
