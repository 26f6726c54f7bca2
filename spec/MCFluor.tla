------------------------------ MODULE MCFluor ------------------------------
(* Fluorescence of small samples: laws that follow from what it stands for.   *)
(* Layers are thick enough not to be taken as very thin (Maths!L0).           *)
EXTENDS Behave
CONSTANTS Wide
Layer(i, n, d, t) == [op |-> "lay.new", id |-> i, name |-> n, density |-> d, thickness |-> t]
Beam1(i, E, w) == <<[op |-> "beam.new", id |-> i], [op |-> "beam.set", id |-> i, form |-> "vec", energy |-> E, weight |-> w, characteristic |-> <<>>, divergency |-> <<>>]>>
Start == <<[op |-> "lib.new", id |-> "l", form |-> "dir", dir |-> "data"],
           Layer("fe", "Fe", "7.8", "0.012"), Layer("fe1", "Fe", "7.8", "0.004"), Layer("fe2", "Fe", "7.8", "0.008"),
           Layer("ca", "CaCl2", "2.0", "0.002"), Layer("cu", "Cu2Fe", "8.0", "0.001"), Layer("f", "Si", "2.33", "0.003"), Layer("air", "C", "0.01", "1.0"),
           [op |-> "det.new", id |-> "d", name |-> "Si", density |-> "2.33", thickness |-> "0.03"],
           [op |-> "det.set", id |-> "d", what |-> "diameter", v |-> "0.8"], [op |-> "det.set", id |-> "d", what |-> "distance", v |-> "2.5"]>>
         \o Beam1("b1", <<"17.5">>, <<"1.0">>) \o Beam1("b2", <<"9.5">>, <<"1.0">>) \o Beam1("b3", <<"9.5", "17.5">>, <<"1.0", "3.0">>)
         \o <<[op |-> "xrf.new", id |-> "x"]>>
Set(w) == [op |-> "xrf.set", id |-> "x", what |-> w]
Samples == {<<"fe">>, <<"fe1", "fe2">>, <<"cu", "fe">>, <<"cu", "fe1", "fe2">>, <<"fe", "ca">>, <<"fe1", "fe2", "ca">>} \cup (IF Wide THEN {<<"ca", "fe", "cu">>, <<"cu">>, <<"ca">>, <<>>} ELSE {})
Beams == {"b1", "b3"} \cup (IF Wide THEN {"b2"} ELSE {})
Ops == {Set("sample") @@ [layers |-> s, ref |-> 0] : s \in Samples}
  \cup {Set("beam") @@ [beam |-> b] : b \in Beams}
  \cup {Set("geometry") @@ g : g \in {[alphaIn |-> "30.0", alphaOut |-> "70.0"], [alphaIn |-> "90.0", alphaOut |-> "20.0"]}}
  \cup {Set("detector") @@ [det |-> "d"]}
  \cup (IF Wide THEN {Set("filters") @@ [layers |-> <<"f">>], Set("attenuators") @@ [layers |-> <<"air", "f">>]} ELSE {})
Init == StartIn(Start)
Next == Step(Ops)
Spec == Init /\ [][Next]_<<st, hist>>

L == st.lib["l"]
X == st.xrf["x"]
Q(keys, s) == [op |-> "xrf.fluo", id |-> "x", lib |-> "l", form |-> "keys", keys |-> keys, secondary |-> s, geo |-> 0, mf |-> 1]
Ask(x, keys, s, over) == Fluo(L, x, Q(keys, s), over)
Val(s) == Pieces(s, "~")[1]
\* a quantity of every line in every layer, weighted with the efficiency of its detection
LinesIn(a, k) == UNION {DOMAIN a.ok[k][i] : i \in DOMAIN a.ok[k]}
Of(a, k, i, l, w) == IF k \in DOMAIN a.ok /\ i \in DOMAIN a.ok[k] /\ l \in DOMAIN a.ok[k][i] THEN Val(a.ok[k][i][l][w]) ELSE Zero
Seen(a, k, l, w, is) == FSumSeq([n \in 1..Len(is) |-> FMul(Of(a, k, is[n], l, w), Of(a, k, is[n], l, "efficiency"))])
Near(a, b, r) == FNear(a, b, r, "1.0E-15")
Keys1 == <<"Fe K", "Ca Ka", "Cu K", "Cl K">>
Ready == Len(X.sample) > 0 /\ Len(X.beam) > 0
Mains1(a, k) == {l \in LinesIn(a, k) : \A i \in 1..Len(l) : SAt(l, i) # " "}

\* nothing is negative, efficiencies are between 0 and 1, what is known of the parts adds to the whole
InvSane ==
  Ready => LET a == Deep(Ask(X, Keys1, 2, <<>>)) IN
    \A k \in DOMAIN a.ok : \A i \in DOMAIN a.ok[k] : \A l \in DOMAIN a.ok[k][i] :
      LET y == a.ok[k][i][l] IN
      /\ \A w \in DOMAIN y : y[w] # "*" => ~FLt(Val(y[w]), Zero)
      /\ "efficiency" \in DOMAIN y => FLe(y.efficiency, One)
      /\ (y.rate # "*" /\ "ratio" \in DOMAIN y) => FLe(Val(y.rate), FAdd(FAdd(Val(y.primary), Val(y.secondary)), Val(y.tertiary)))
\* rays act independently: a beam of several does what its rays do one by one
InvRays ==
  (Ready /\ Len(X.beam) = 2) =>
    LET a == Deep(Ask(X, Keys1, 1, <<>>))
        b(n) == Ask([X EXCEPT !.beam = <<[@[n] EXCEPT !.weight = One]>>], Keys1, 1, <<>>)
        one == Deep([n \in 1..2 |-> b(n)])
    IN \A k \in DOMAIN a.ok : \A i \in DOMAIN a.ok[k] : \A l \in DOMAIN a.ok[k][i] : \A w \in {"primary", "secondary", "rate"} :
         Near(Of(a, k, i, l, w), FSumSeq([n \in 1..2 |-> FMul(X.beam[n].weight, Of(one[n], k, i, l, w))]), "1.0E-9")
\* what is asked together is answered as if asked one by one
InvRequests ==
  Ready => LET a == Deep(Ask(X, Keys1, 1, <<>>)) IN
    \A n \in 1..Len(Keys1) : LET b == Ask(X, <<Keys1[n]>>, 1, <<>>) IN
      IF Keys1[n] \in DOMAIN a.ok THEN b.ok = Keys1[n] :> a.ok[Keys1[n]] ELSE b.ok = EmptyMap
\* secondary excitation adds to the primary, and leaves it as it is
InvOrders ==
  Ready => LET a == Deep(Ask(X, Keys1, 0, <<>>)) b == Deep(Ask(X, Keys1, 1, <<>>)) IN
    /\ DOMAIN a.ok = DOMAIN b.ok
    /\ \A k \in DOMAIN a.ok : \A i \in DOMAIN a.ok[k] : \A l \in DOMAIN a.ok[k][i] :
         /\ a.ok[k][i][l].primary = b.ok[k][i][l].primary
         /\ ~FLt(Val(b.ok[k][i][l].rate), Val(a.ok[k][i][l].rate))
\* a layer cut in two emits what the whole did, and excites the others as the whole did
Joined(s) == IF Len(s) < 2 THEN s ELSE
  LET k == {i \in 1..(Len(s) - 1) : s[i].matName = "Fe" /\ s[i + 1].matName = "Fe"} IN
  IF k = {} THEN s ELSE LET i == Min(k) IN
  SubSeq(s, 1, i - 1) \o <<[s[i] EXCEPT !.thickness = FAdd(@, s[i + 1].thickness)]>> \o SubSeq(s, i + 2, Len(s))
InvCut ==
  (Ready /\ Len(Joined(X.sample)) < Len(X.sample)) =>
    LET a == Deep(Ask(X, Keys1, 1, <<>>))
        b == Deep(Ask([X EXCEPT !.sample = Joined(X.sample)], Keys1, 1, <<>>))
        is == <<"0", "1", "2">>
    IN /\ DOMAIN a.ok = DOMAIN b.ok
       /\ \A k \in DOMAIN a.ok : \A l \in Mains1(a, k) :
            /\ Near(Seen(a, k, l, "primary", is), Seen(b, k, l, "primary", is), "1.0E-9")
            /\ Near(Seen(a, k, l, "secondary", is), Seen(b, k, l, "secondary", is), "1.0E-4")
=============================================================================
