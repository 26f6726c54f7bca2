------------------------------- MODULE Layers -------------------------------
(* Layers of matter and detectors.                                            *)
EXTENDS Library, Instruments

\* a layer knows its substance by name, or by a material of its own
NewLayer(e) ==
  [name |-> Get(e, "name", ""), matName |-> Get(e, "name", ""), density |-> Get(e, "density", Zero), thickness |-> Get(e, "thickness", Zero),
   funny |-> Get(e, "funny", One), own |-> FALSE, comp |-> EmptyMap]
Named(l, n) == [l EXCEPT !.matName = n, !.own = FALSE]
\* of a material the layer takes the composition, and what it lacks itself
Made(l, m) ==
  [l EXCEPT !.own = TRUE, !.comp = m.composition,
            !.density = IF FLt(@, Zero) THEN m.density ELSE @,
            !.thickness = IF FPos(@) THEN @ ELSE m.thickness]
LayerOut(l) ==
  [name |-> l.name, density |-> l.density, thickness |-> l.thickness, funny |-> l.funny, hasComp |-> IF l.own THEN 1 ELSE 0,
   matName |-> IF l.own THEN "*" ELSE l.matName]

\* ---- composition, in terms of elements; extra are materials known besides those of the library
LayerComp(lib, l, extra) == IF l.own THEN MapComposition(lib, l.comp, extra) ELSE Composition(lib, l.matName, extra)
\* a function of the composition
OfComp(lib, c, F(_)) == IF IsStar(c) THEN "*" ELSE IF ~Plain2(c) THEN Err ELSE MixAnswer(lib, Resolve(lib, c, FALSE), F)
\* ---- transmission: the part 1 - funny goes by untouched
Tilt(angle) == IF FEq(angle, "90.0") THEN One ELSE FSinDeg(FAbs(angle))
MassThickness(l, angle) == FDiv(FMul(l.density, l.thickness), Tilt(angle))
Passed(l, rt, mu) == FAdd(FSub(One, l.funny), FMul(l.funny, FExp(FNeg(FMul(rt, mu)))))
TransAt(lib, l, c, angle, E) == Passed(l, MassThickness(l, angle), MixAt(lib, c, One, E).total)
TransAnswer(lib, l, c, e) ==
  LET angle == Get(e, "angle", "90.0")
      rt == MassThickness(l, angle)
  IN IF ~FPos(rt) THEN Err
     ELSE OfComp(lib, c, LAMBDA r : IF "energies" \in DOMAIN e
                                    THEN [i \in 1..Len(e.energies) |-> Passed(l, rt, MixAt(lib, r.m, r.total, e.energies[i]).total)]
                                    ELSE Passed(l, rt, MixAt(lib, r.m, r.total, e.energy).total))

LayerQuery(lib, l, e) ==
  LET c == Deep(LayerComp(lib, l, <<>>)) IN
  CASE e.q = "comp" -> Answer(c)
    [] e.q = "mu" -> OfComp(lib, c, LAMBDA r : MixAt(lib, r.m, r.total, e.energy))
    [] e.q = "muvec" -> OfComp(lib, c, LAMBDA r : MixVec(lib, r, e.energies))
    [] e.q \in {"trans", "transvec"} -> TransAnswer(lib, l, c, e)
    [] e.q = "families" ->
         IF IsStar(c) THEN "*" ELSE IF ~Plain2(c) THEN "*" ELSE Families(lib, SortedStrings(DOMAIN c), e.energy)

\* ---- detectors
Quarter == FDiv(FPi, "4.0")
NewDetector(e) ==
  [layer |-> NewLayer(e), diameter |-> Zero, distance |-> "10.0", minE |-> "0.01", minI |-> "1E-7", maxN |-> 4, alphaIn |-> "90.0", seen |-> EmptyMap]
DetectorOut(d) ==
  [area |-> FMul(Quarter, FMul(d.diameter, d.diameter)), diameter |-> d.diameter, distance |-> d.distance, minE |-> d.minE, minI |-> d.minI,
   maxN |-> d.maxN, alphaIn |-> d.alphaIn, layer |-> LayerOut(d.layer)]
\* escape peaks at energy E, as seen by a detector
DetEscape(lib, d, E) ==
  LET c == Deep(LayerComp(lib, d.layer, <<>>)) IN
  IF IsStar(c) THEN "*" ELSE IF ~Plain2(c) THEN Err
  ELSE LET k == EscapeOk(lib, c, E) IN
       IF k = "*" THEN "*" ELSE IF k = "err" THEN Err
       ELSE Ok(Escape(lib, [comp |-> c, alphaIn |-> d.alphaIn, iThr |-> d.minI], E))

LayDo(st, e) ==
  LET det == Get(e, "kind", "lay") = "det"
      l == IF det THEN st.det[e.id].layer ELSE st.lay[e.id]
      say(r) == [st |-> st, res |-> <<r>>]
      put(x) == IF det THEN [st EXCEPT !.det[e.id].layer = x] ELSE [st EXCEPT !.lay = Put(@, e.id, x)]
      done(s) == [st |-> s, res |-> <<Ok("*")>>]
  IN CASE e.op = "lay.new" -> done([st EXCEPT !.lay = Put(@, e.id, NewLayer(e))])
       [] e.op = "lay.setMaterial" ->
            LET s == put(IF Has(e, "mat") THEN Made(l, st.mat[e.mat]) ELSE Named(l, e.name))
            IN done(IF det THEN [s EXCEPT !.det[e.id].seen = EmptyMap] ELSE s)
       [] e.op = "lay.setDensity" -> IF FPos(e.v) THEN done(put([l EXCEPT !.density = e.v])) ELSE say(Err)
       [] e.op = "lay.setThickness" -> IF FPos(e.v) THEN done(put([l EXCEPT !.thickness = e.v])) ELSE say(Err)
       [] e.op = "lay.get" -> say(Ok(LayerOut(l)))
       [] e.op = "lay.q" -> IF IsVoid(st.lib[e.lib]) THEN say("*") ELSE say(LayerQuery(st.lib[e.lib], l, e))

DetDo(st, e) ==
  LET say(r) == [st |-> st, res |-> <<r>>]
      set(d) == [st |-> [st EXCEPT !.det = Put(@, e.id, d)], res |-> <<Ok("*")>>]
  IN IF e.op = "det.new" THEN set(NewDetector(e))
  ELSE LET d == st.det[e.id] IN
    CASE e.op = "det.set" ->
           (CASE e.what = "area" -> IF FLt(e.v, Zero) THEN say(Err) ELSE set([d EXCEPT !.diameter = FSqrt(FDiv(e.v, Quarter))])
              [] e.what = "diameter" -> IF FLt(e.v, Zero) THEN say(Err) ELSE set([d EXCEPT !.diameter = e.v])
              [] e.what = "distance" -> IF FPos(e.v) THEN set([d EXCEPT !.distance = e.v]) ELSE say(Err)
              [] e.what = "minE" -> set([d EXCEPT !.minE = e.v, !.seen = EmptyMap])
              [] e.what = "minI" -> set([d EXCEPT !.minI = e.v, !.seen = EmptyMap])
              [] e.what = "maxN" -> set([d EXCEPT !.maxN = e.v, !.seen = EmptyMap])
              [] e.what = "clear" -> set([d EXCEPT !.seen = EmptyMap]))
      [] e.op = "det.get" -> say(Ok(DetectorOut(d)))
      [] e.op = "det.escape" ->
           IF IsVoid(st.lib[e.lib]) THEN say("*")
           ELSE LET label == Get(e, "label", "")
                    seen == IF Get(e, "update", 1) # 0 THEN EmptyMap ELSE d.seen
                    key == label \o "@" \o FCanon(e.energy)
                    now == Deep(DetEscape(st.lib[e.lib], d, e.energy))
                IN IF label = "" THEN say(now)
                   \* asked again under the same label without an update, the answer may be an earlier one
                   ELSE LET old == Get(seen, key, <<>>) IN
                        [st |-> [st EXCEPT !.det[e.id].seen = Put(seen, key, Append(old, now))], res |-> <<now>> \o old]
=============================================================================
