------------------------------ MODULE MCLayer ------------------------------
(* Layers and detectors: every history of a few materials, names, densities   *)
(* and thicknesses, with materials of the same names coming and going in the  *)
(* library.                                                                   *)
EXTENDS Behave
CONSTANTS Wide
Mat(i, n, names, amounts, d, t) == <<[op |-> "mat.new", id |-> i, name |-> n, density |-> d, thickness |-> t], [op |-> "mat.setComp", id |-> i, form |-> "vec", names |-> names, amounts |-> amounts]>>
Start == <<[op |-> "lib.new", id |-> "l", form |-> "dir", dir |-> "data"]>>
         \o Mat("ma", "Mix", <<"Fe", "O">>, <<"1.0", "3.0">>, "4.0", "0.02") \o Mat("mb", "Fe", <<"Cu">>, <<"1.0">>, "2.0", "0.05") \o Mat("mc", "Mix", <<"CaCl2">>, <<"2.0">>, "1.5", "0.5")
         \o <<[op |-> "lay.new", id |-> "y", name |-> "Fe"], [op |-> "det.new", id |-> "d", name |-> "Mix", density |-> "-1.0", thickness |-> "0.0"]>>
On(k, o) == IF k = "det" THEN o @@ [id |-> "d", kind |-> "det"] ELSE o @@ [id |-> "y"]
Sorts == {"lay", "det"}
Ops == {On(k, [op |-> "lay.setMaterial", mat |-> m]) : m \in {"ma", "mb"}, k \in Sorts}
  \cup {On(k, [op |-> "lay.setMaterial", name |-> n]) : n \in {"Mix", "SiO2"}, k \in Sorts}
  \cup {On(k, [op |-> "lay.setDensity", v |-> v]) : v \in {"3.0", "0.0"}, k \in Sorts}
  \cup {On(k, [op |-> "lay.setThickness", v |-> v]) : v \in {"0.01", "-1.0"}, k \in Sorts}
  \cup {[op |-> "lib.addMaterial", id |-> "l", mat |-> "mc", errorOnReplace |-> 0], [op |-> "lib.removeMaterial", id |-> "l", name |-> "Mix"]}
  \cup (IF Wide THEN {On(k, [op |-> "lay.setMaterial", mat |-> "mc"]) : k \in Sorts} \cup {On(k, [op |-> "lay.setMaterial", name |-> n]) : n \in {"Fe", "nothing"}, k \in Sorts}
                     \cup {[op |-> "lay.new", id |-> "y", name |-> "Mix", density |-> "-1.0", thickness |-> "-2.0", funny |-> "0.5"], [op |-> "lib.addMaterial", id |-> "l", mat |-> "ma", errorOnReplace |-> 0]} ELSE {})
Init == StartIn(Start)
Next == Step(Ops)
Spec == Init /\ [][Next]_<<st, hist>>
L == st.lib["l"]
All2 == {st.lay["y"], st.det["d"].layer}
\* a layer is made of elements whose parts add to one, or of nothing that is known
InvComp == \A y \in All2 : LET c == LayerComp(L, y, <<>>) IN Plain2(c) => DOMAIN c \subseteq DOMAIN DS.elements /\ FNear(FSumMap(c), One, "1E-12", "0.0")
\* what goes through is between the open part and everything; thicker, denser or more tilted lets less through
T(y, E, a) == TransAnswer(L, y, Deep(LayerComp(L, y, <<>>)), [energy |-> E, angle |-> a])
Passes(r) == "ok" \in DOMAIN r
InvTrans == \A y \in All2 : LET r == T(y, "10.0", "90.0") IN Passes(r) =>
  /\ FLe(FSub(One, y.funny), r.ok) /\ FLe(r.ok, One)
  /\ FLe(T(y, "10.0", "30.0").ok, r.ok)
  /\ FLe(T([y EXCEPT !.thickness = FMul(2, @)], "10.0", "90.0").ok, r.ok)
  \* two layers are as one twice as thick
  /\ y.funny = One => FNear(T([y EXCEPT !.thickness = FMul(2, @)], "10.0", "90.0").ok, FMul(r.ok, r.ok), "1E-9", "1E-300")
  /\ FNear(T(y, "10.0", "30.0").ok, T([y EXCEPT !.thickness = FMul(2, @)], "10.0", "90.0").ok, "1E-9", "1E-300")
\* what is refused changes nothing; a density or thickness that a layer has is kept when a material is given
Refusals == [][LET e == hist'[Len(hist')] IN Do(st, e).res = <<Err>> => st' = st]_<<st, hist>>
OwnKept == [][LET e == hist'[Len(hist')] IN (e.op = "lay.setMaterial" /\ Has(e, "mat")) =>
               \A p \in {<<st.lay["y"], st'.lay["y"]>>, <<st.det["d"].layer, st'.det["d"].layer>>} :
                 /\ FPos(p[1].density) => p[2].density = p[1].density
                 /\ FPos(p[1].thickness) => p[2].thickness = p[1].thickness
                 /\ p[2].name = p[1].name /\ p[2].funny = p[1].funny]_<<st, hist>>
\* a layer with a material of its own does not depend on what the library calls by the same name
OwnHolds == [][\A p \in {<<st.lay["y"], st'.lay["y"]>>, <<st.det["d"].layer, st'.det["d"].layer>>} :
                (p[1] = p[2] /\ p[1].own) => LayerComp(L, p[1], <<>>) = LayerComp(st'.lib["l"], p[2], <<>>)]_<<st, hist>>
=============================================================================
