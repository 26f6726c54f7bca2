------------------------------- MODULE Fluor -------------------------------
(* The fluorescence of a multilayer sample: fundamental parameters with       *)
(* secondary and tertiary excitation, escape peaks and detection efficiency.  *)
EXTENDS Config, Maths

\* ---- numbers known up to the accuracy of an integral: <<value, error>>
UExact(v) == <<v, Zero>>
UAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
UMul(k, a) == <<FMul(k, a[1]), FMul(FAbs(k), a[2])>>
UTotal(m) == LET q == SetToSeq(DOMAIN m) IN <<FSumSeq([i \in 1..Len(q) |-> m[q[i]][1]]), FSumSeq([i \in 1..Len(q) |-> m[q[i]][2]])>>
UOut(a) == a[1] \o "~" \o a[2]
UOf(f, x, v) == LET t == MathTol(f, x) IN <<v, FAdd(FMul(t[1], FAbs(v)), t[2])>>

\* ---- what is asked for: element, family of lines, layer (none: all of them)
Request(el, fam, layer) == [el |-> el, fam |-> fam, layer |-> layer]
OfKey(k) ==
  LET w == Deep(WordsOf(k, " ", "")) IN
  CASE Len(w) = 3 -> IF IntChars(w[3]) = "" THEN Void ELSE Request(w[1], w[2], AsInt(w[3], 0))
    [] Len(w) = 2 -> Request(w[1], w[2], -1)
    [] Len(w) = 1 -> Request(w[1], "", -1)
    [] OTHER -> Request("", "", 0)
Requests(e) ==
  LET form == Get(e, "form", "keys") IN
  CASE form = "keys" -> LET q == Deep(All(e.keys, OfKey)) IN IF \E i \in 1..Len(q) : IsVoid(q[i]) THEN Err ELSE Ok(q)
    [] form = "single" -> IF Get(e, "family", "") = "" \/ Get(e, "layer", 0) < 0 THEN Err ELSE Ok(<<Request(e.element, e.family, Get(e, "layer", 0))>>)
    [] OTHER -> LET n == Len(e.elements) IN
                IF Len(e.families) # n \/ (n > 0 /\ Len(e.layers) \notin {1, n}) THEN Err
                ELSE Ok([i \in 1..n |-> Request(e.elements[i], e.families[i], IF Len(e.layers) = 1 THEN e.layers[1] ELSE e.layers[i])])
ResultKey(q) == q.el \o " " \o q.fam
\* the lines of a family
OfFamily(fam, l) ==
  CASE fam = "Ka" -> SPrefix("KL", l)
    [] fam = "Kb" -> SPrefix("K", l) /\ ~SPrefix("KL", l)
    [] OTHER -> SPrefix(fam, l)
MainFamily(fam) == SubSeq(fam, 1, 1)

TwoDigits(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
RhoT(l) == FMul(l.density, l.thickness)

\* ---- the beam after its filters
FilteredRays(lib, c, rays, fcomp) ==
  LET cols == Columns(rays, Deep(Orders(rays))[1]) IN
  [i \in 1..Len(rays) |->
     LET E == FCanon(cols[1][i])
         w1 == FoldLeft(LAMBDA w, k : FMul(w, Passed(c.filters[k], RhoT(c.filters[k]), LayerMu(lib, fcomp[k], E).total)), cols[2][i], [k \in 1..Len(c.filters) |-> k])
     IN [E |-> E, W |-> FoldLeft(LAMBDA w, t : FMul(w, TransmissionAt(t.table, E)), w1, c.userFilters)]]

\* ---- one ray in the sample: attenuation coefficients, part reaching each layer, and what each layer emits because of it
RayIn(lib, c, comp, ray, sinIn, secondary, limit) ==
  LET n == Len(c.sample)
      m == Deep([i \in 1..n |-> LayerMu(lib, comp[i], ray.E)])
      reach == Deep([i \in 1..n |-> IF i = 1 THEN One ELSE FExp(FNeg(FSumSeq([k \in 1..(i - 1) |-> FDiv(FMul(RhoT(c.sample[k]), m[k].total), sinIn)])))])
      shells(x) == LET el == El(lib, x) IN {s \in ExcitedShells(el, ray.E) : SAt(s, 1) \in Mains /\ FPos(el.shells[s].const["omega"])}
      lines(i, x) ==
        LET S == Deep(shells(x)) ex == ElExcite(lib, x, ray.E)
            L == SetToSeq({l \in DOMAIN ex : LineTo(l) \in S /\ FPos(FMul(ex[l].rate, comp[i][x])) /\ ~(FPos(limit) /\ FLt(ex[l].rate, limit))})
        IN [k \in 1..Len(L) |-> [name |-> x \o " " \o L[k], E |-> ex[L[k]].energy,
                                 rate |-> FMul(FMul(ex[L[k]].rate, comp[i][x]), FMul(ray.W, reach[i]))]]
      from(i) == FoldLeft(LAMBDA a, x : a \o lines(i, x), <<>>, SortedStrings(DOMAIN comp[i])) \o
                 <<[name |-> "coherent scattering", E |-> ray.E, rate |-> FMul(FMul(ray.W, reach[i]), m[i].coherent)]>>
      src == IF secondary > 0 THEN Deep([i \in 1..n |-> from(i)]) ELSE [i \in 1..n |-> <<>>]
  IN [E |-> ray.E, W |-> ray.W, mu |-> [i \in 1..n |-> m[i].total], reach |-> reach, src |-> src]

\* ---- efficiency of the detection of photons of energy E coming out of layer i
EfficiencyAt(lib, c, comp, acomp, dcomp, geo, i, E) ==
  LET up == [k \in 1..(i - 1) |-> Passed(c.sample[k], MassThickness(c.sample[k], c.alphaOut), LayerMu(lib, comp[k], E).total)]
      at == [k \in 1..Len(c.attenuators) |-> Passed(c.attenuators[k], RhoT(c.attenuators[k]), LayerMu(lib, acomp[k], E).total)]
      us == [k \in 1..Len(c.userAttenuators) |-> TransmissionAt(c.userAttenuators[k].table, E)]
      d == c.detector.layer
      seen == IF DOMAIN dcomp = {} \/ ~FPos(d.density) \/ ~FPos(d.thickness) THEN One
              ELSE FSub(One, Passed(d, RhoT(d), LayerMu(lib, dcomp, E).total))
  IN FMul(FMul(FoldLeft(FMul, One, up), FoldLeft(FMul, One, at \o us)), FMul(geo[i], seen))

\* ---- one line of an element, coming out of layer i
Line(lib, c, comp, rays, q, i, l, thr, ctx) ==
  LET sinIn == ctx.sinIn
      sinOut == ctx.sinOut
      lay == c.sample[i]
      rt == RhoT(lay)
      mass == Get(comp[i], q.el, Zero)
      mf == IF ctx.mf THEN mass ELSE One
      R == SelectSeq([r \in 1..Len(rays) |-> r], LAMBDA r : FLe(thr, rays[r].E) /\ FPos(rays[r].W) /\ l \in DOMAIN ElExcite(lib, q.el, rays[r].E))
      E == ElExcite(lib, q.el, rays[R[1]].E)[l].energy
      mui == FDiv(LayerMu(lib, comp[i], E).total, sinOut)
      prim(r) == LET x == FAdd(FDiv(rays[r].mu[i], sinIn), mui) IN
                 FMul(FMul(FDiv(FSub(One, FExp(FNeg(FMul(x, rt)))), x), FDiv(mf, sinIn)),
                      FMul(FMul(ElExcite(lib, q.el, rays[r].E)[l].rate, rays[r].W), rays[r].reach[i]))
      out == FExp(FNeg(FMul(mui, rt)))
      \* the enhancement by what layer j emits at energy Ej, per unit of its emission
      between(j, Ej) == FSumSeq([b \in 1..(IF i < j THEN j - i - 1 ELSE i - j - 1) |->
                          LET k == (IF i < j THEN i ELSE j) + b IN FMul(RhoT(c.sample[k]), LayerMu(lib, comp[k], Ej).total)])
      inside(r, Ej) ==
        LET a == FDiv(rays[r].mu[i], sinIn) m == LayerMu(lib, comp[i], Ej).total
            x1 == <<a, mui, m, lay.density, lay.thickness>> x2 == <<mui, a, m, lay.density, lay.thickness>>
        IN UAdd(UOf("L0", x1, L0(x1)), UOf("L0", x2, L0(x2)))
      across(r, j, Ej) ==
        LET p == FDiv(rays[r].mu[j], sinIn)
            sign(v) == IF j > i THEN v ELSE FNeg(v)
            d2 == RhoT(c.sample[j])
            x == <<sign(p), sign(mui), rt, d2, LayerMu(lib, comp[i], Ej).total, LayerMu(lib, comp[j], Ej).total, between(j, Ej)>>
        IN IF j > i THEN UMul(out, UOf("X", x, FX(x)))
           \* times what the upper layer lets through of the beam
           ELSE LET t == MathTol("X", x) v == FX(x \o <<FMul(p, d2)>>) IN <<v, FAdd(FMul(t[1], FAbs(v)), t[2])>>
      counted(r, j, s) ==
        /\ FLe(thr, s.E)
        /\ l \in DOMAIN ElExcite(lib, q.el, s.E)
        \* other layers are neglected when too little reaches them or too little comes back
        /\ j # i => /\ FGe(ElExcite(lib, q.el, s.E)[l].rate, "1.0E-30")
                    /\ ~FLt(FDiv(rays[r].reach[j], rays[r].reach[i]), "1.0E-4")
                    /\ j > i => FGe(out, "0.001")
      value(r, j, s) ==
        UMul(FMul(FMul(FDiv("0.5", sinIn), mf), FMul(ElExcite(lib, q.el, s.E)[l].rate, s.rate)), IF j = i THEN inside(r, s.E) ELSE across(r, j, s.E))
      used(r, j) == SelectSeq(rays[r].src[j], LAMBDA s : counted(r, j, s))
      part(r, j) == LET u == Deep(used(r, j)) IN [k \in 1..Len(u) |-> <<u[k].name \o " " \o TwoDigits(j - 1), value(r, j, u[k])>>]
      all == Deep(FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, j : b \o part(r, j), a, [j \in 1..Len(c.sample) |-> j]), <<>>, R))
      contrib == FGroup(All(all, LAMBDA x : x[1]), All(all, LAMBDA x : x[2]))
      eff == EfficiencyAt(lib, c, comp, ctx.acomp, ctx.dcomp, ctx.geo, i, E)
      esc == IF DOMAIN ctx.dcomp = {} THEN EmptyMap
             ELSE Escape(lib, [comp |-> ctx.dcomp, alphaIn |-> c.detector.alphaIn, iThr |-> c.detector.minI], E)
  IN [energy |-> E, eff |-> eff, thr |-> thr, mu |-> FMul(mui, sinOut), primary |-> FSumSeq(All(R, prim)), secondary |-> UTotal(contrib),
      contrib |-> contrib, mass |-> mass, esc |-> esc]

LinesOf(lib, c, comp, rays, q, i, thr, ctx) ==
  LET L == UNION {{l \in DOMAIN ElExcite(lib, q.el, rays[r].E) : OfFamily(q.fam, l)} : r \in {x \in 1..Len(rays) : FLe(thr, rays[x].E) /\ FPos(rays[x].W)}}
  IN IF ctx.mf /\ (q.el \notin DOMAIN comp[i] \/ FEq(Get(comp[i], q.el, Zero), Zero)) THEN EmptyMap
     ELSE Deep([l \in L |-> Line(lib, c, comp, rays, q, i, l, thr, ctx)])

\* ---- tertiary excitation is estimated from the enhancement of the exciting lines: "hot" lines, enhanced by a percent or more
Factor(x) == FDiv(FAdd(x.primary, x.secondary[1]), x.primary)
FactorError(x) == FDiv(x.secondary[2], x.primary)
Hot(x) == FPos(x.primary) /\ FGe(Factor(x), "1.01")
Border(x) == FPos(x.primary) /\ FLe(FAbs(FSub(Factor(x), "1.01")), FAdd(FactorError(x), "1.0E-9"))
\* the hot lines by name, in every layer computed
HotLines(res) ==
  LET P == UNION {UNION {{<<k, i, l>> : l \in {y \in DOMAIN res[k][i] : ~FLt(res[k][i][y].mass, "5.0E-3") /\ (Hot(res[k][i][y]) \/ Border(res[k][i][y]))}} : i \in DOMAIN res[k]} : k \in DOMAIN res}
      name(p) == SubSeq(p[1], 1, Min({x \in 1..Len(p[1]) : SAt(p[1], x) = " "}) - 1) \o " " \o p[3] \o " " \o TwoDigits(p[2])
      q == SetToSeq(P)
      f(p) == LET x == res[p[1]][p[2]][p[3]] IN <<FSub(Factor(x), One), FactorError(x), IF Border(x) THEN One ELSE Zero>>
  IN MapOf(All(q, name), All(q, f))
Tertiary(x, hot) ==
  LET K == DOMAIN hot \cap DOMAIN x.contrib
      u(k) == LET a == x.contrib[k] f == hot[k] IN <<FMul(a[1], f[1]), FAdd(FMul(a[2], FAbs(f[1])), FMul(FAbs(a[1]), f[2]))>>
  IN IF Border(x) \/ (Hot(x) /\ \E k \in K : FPos(hot[k][3])) THEN <<"*">>
     ELSE IF ~Hot(x) THEN UExact(Zero) ELSE UTotal([k \in K |-> u(k)])

Entry(l, x, hot, secondary) ==
  LET t == IF secondary > 1 THEN Deep(Tertiary(x, hot)) ELSE UExact(Zero)
      known == t[1] # "*"
      total == UAdd(UAdd(UExact(x.primary), x.secondary), IF known THEN t ELSE UExact(Zero))
      kept == FSub(One, FSumSeq(LET q == SetToSeq(DOMAIN x.esc) IN [i \in 1..Len(q) |-> x.esc[q[i]].rate]))
      out(u) == IF known THEN UOut(u) ELSE "*"
      tert(k) == IF secondary > 1 THEN [tertiary |-> out(UMul(k, IF known THEN t ELSE UExact(Zero)))] ELSE EmptyMap
      main == [energy |-> x.energy, efficiency |-> x.eff, energy_threshold |-> x.thr, mu_1_i |-> x.mu, primary |-> x.primary,
               secondary |-> UOut(x.secondary), massFraction |-> x.mass, rate |-> out(UMul(FMul(x.eff, kept), total))]
              @@ tert(One) @@ [k \in DOMAIN x.contrib |-> UOut(x.contrib[k])]
      escape(k) == LET a == x.esc[k] IN
              [energy |-> a.energy, ratio |-> a.rate, primary |-> FMul(a.rate, x.primary), secondary |-> UOut(UMul(a.rate, x.secondary)),
               rate |-> out(UMul(FMul(x.eff, a.rate), total))] @@ tert(a.rate)
  IN [y \in {l} \cup {l \o " " \o k : k \in DOMAIN x.esc} |->
        IF y = l THEN main ELSE escape(SubSeq(y, Len(l) + 2, Len(y)))]

\* ---- the whole answer
Fluo(lib, c, e, over) ==
  LET rq == Deep(Requests(e))
      given == IF Len(over) > 0 THEN over ELSE c.beam
      n == Len(c.sample)
      secondary == Get(e, "secondary", 0)
      useGeo == Get(e, "geo", 1) # 0
      comp == Deep(All(c.sample, LAMBDA l : LayerComp(lib, l, c.materials)))
      fcomp == Deep(All(c.filters, LAMBDA l : LayerComp(lib, l, c.materials)))
      acomp == Deep(All(c.attenuators, LAMBDA l : LayerComp(lib, l, c.materials)))
      hasDet == c.detector.layer.own \/ c.detector.layer.matName # ""
      dcomp == IF hasDet THEN Deep(LayerComp(lib, c.detector.layer, <<>>)) ELSE EmptyMap
      comps == comp \o fcomp \o acomp \o (IF hasDet THEN <<dcomp>> ELSE <<>>)
      bad(q) == \E i \in 1..Len(q) : ~Plain2(q[i])
      thick(l, a) == FPos(MassThickness(l, a))
      geo == Deep([i \in 1..n |-> IF useGeo THEN GeomEff(c, i - 1) ELSE Ok(One)])
      badGeo == \E i \in 1..n : IsErr(geo[i])
      thinFilter == \E i \in 1..Len(c.filters) : ~thick(c.filters[i], "90.0")
      ask == rq.ok
      els == {ask[i].el : i \in 1..Len(ask)}
      elsOk == \A x \in els : Defined(lib, x)
      involved == els \cup UNION {DOMAIN comps[i] : i \in 1..Len(comps)}
      plain(x) == HasEl(lib, x) /\ (x \in DOMAIN lib.els => MuReady(lib.els[x]) /\ ~StaleCascade(lib.els[x]) /\ AllCascade(lib.els[x]))
  IN IF IsErr(rq) THEN Err
     ELSE IF \E i \in 1..Len(comps) : IsStar(comps[i]) THEN "*"
     ELSE IF Len(given) = 0 THEN IF bad(comps) \/ badGeo \/ thinFilter THEN "*" ELSE Ok(EmptyMap)
     ELSE IF bad(comp) \/ bad(fcomp) \/ badGeo \/ thinFilter THEN Err
     ELSE IF ~elsOk \/ \E i \in 1..Len(ask) : ask[i].fam = "" THEN Err
     ELSE IF \E x \in involved : ~plain(x) THEN "*"
     ELSE IF bad(acomp) \/ (hasDet /\ ~Plain2(dcomp)) \/ (\E i \in 1..(n - 1) : ~thick(c.sample[i], c.alphaOut)) \/ \E i \in 1..Len(c.attenuators) : ~thick(c.attenuators[i], "90.0") THEN
       \* refused as soon as a line has to get through
       "*"
     ELSE
     LET sinIn == FSinDeg(c.alphaIn)
         fr == Deep(FilteredRays(lib, c, given, fcomp))
         rays == Deep(All(fr, LAMBDA r : RayIn(lib, c, comp, r, sinIn, secondary, Get(e, "limit", Zero))))
         ctx == Deep([sinIn |-> sinIn, sinOut |-> FSinDeg(c.alphaOut), mf |-> Get(e, "mf", 0) # 0, acomp |-> acomp, dcomp |-> dcomp,
                      geo |-> All(geo, LAMBDA g : g.ok)])
         thr == Deep([x \in els |-> [m \in {"K", "L", "M", "X"} |-> Threshold(El(lib, x).be, m)]])
         thrOf(q) == LET m == MainFamily(q.fam) IN IF m \in {"K", "L", "M"} THEN thr[q.el][m] ELSE Zero
         at(q) == IF q.layer < 0 THEN 0..(n - 1) ELSE {q.layer} \cap 0..(n - 1)
         one(q) == LET m == Deep([x \in at(q) |-> LinesOf(lib, c, comp, rays, q, x + 1, thrOf(q), ctx)]) IN Deep([y \in {x \in at(q) : DOMAIN m[x] # {}} |-> m[y]])
         parts == Deep(All(ask, one))
         keys == {ResultKey(ask[i]) : i \in {x \in 1..Len(ask) : DOMAIN parts[x] # {}}}
         res == Deep([k \in keys |-> FoldLeft(LAMBDA a, w : IF ResultKey(ask[w]) = k THEN parts[w] @@ a ELSE a, EmptyMap, [w \in 1..Len(ask) |-> w])])
         hot == IF secondary > 1 THEN HotLines(res) ELSE EmptyMap
     IN Ok([k \in keys |-> [s \in {ToString(i) : i \in DOMAIN res[k]} |->
              LET i == CHOOSE x \in DOMAIN res[k] : ToString(x) = s IN
              LET L == SortedStrings(DOMAIN res[k][i]) IN
              Deep(FoldLeft(LAMBDA a, l : Entry(l, res[k][i][l], hot, secondary) @@ a, EmptyMap, L))]])

FluoDo(st, e) ==
  LET c == st.xrf[e.id] lib == st.lib[e.lib]
      over == IF Has(e, "beam") THEN st.beam[e.beam] ELSE <<>>
  IN [st |-> st, res |-> <<IF ~Knows(c) \/ IsVoid(lib) THEN "*" ELSE Fluo(lib, c, e, over)>>]
=============================================================================
