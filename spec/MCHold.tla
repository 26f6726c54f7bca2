------------------------------- MODULE MCHold -------------------------------
(* Configurations: every history of a few settings, copies and changes of the *)
(* things that were given.                                                    *)
EXTENDS Behave
CONSTANTS Wide
Layer(i, n, d, t) == [op |-> "lay.new", id |-> i, name |-> n, density |-> d, thickness |-> t]
Start == <<Layer("a", "Fe", "7.8", "0.01"), Layer("b", "SiO2", "2.2", "0.1"), Layer("c", "Gas", "-1.0", "0.0"),
           [op |-> "mat.new", id |-> "m", name |-> "Gas", density |-> "0.001", thickness |-> "3.0"], [op |-> "mat.setComp", id |-> "m", form |-> "vec", names |-> <<"C", "O">>, amounts |-> <<"1.0", "1.0">>],
           [op |-> "tt.new", id |-> "t", name |-> "foil"], [op |-> "tt.set", id |-> "t", form |-> "vec", energy |-> <<"1.0", "9.0">>, transmission |-> <<"0.25", "0.75">>],
           [op |-> "beam.new", id |-> "b1"], [op |-> "beam.set", id |-> "b1", form |-> "vec", energy |-> <<"12.0", "6.0">>, weight |-> <<"1.0", "3.0">>, characteristic |-> <<>>, divergency |-> <<>>],
           [op |-> "det.new", id |-> "d", name |-> "Si", density |-> "2.33", thickness |-> "0.05"],
           [op |-> "xrf.new", id |-> "x"], [op |-> "xrf.new", id |-> "y"]>>
Set(i, w) == [op |-> "xrf.set", id |-> i, what |-> w]
Settings(i) ==
  {Set(i, "beam") @@ [beam |-> "b1"], Set(i, "single") @@ [energy |-> "17.5"],
   Set(i, "sample") @@ [layers |-> <<"a", "c">>, ref |-> 1], Set(i, "sample") @@ [layers |-> <<"b">>, ref |-> 1], Set(i, "sample1") @@ [layer |-> "b"],
   Set(i, "attenuators") @@ [layers |-> <<"c", "a">>],
   Set(i, "detector") @@ [det |-> "d"], Set(i, "geometry") @@ [alphaIn |-> "30.0", alphaOut |-> "20.0"]}
  \cup (IF Wide THEN {Set(i, "sample") @@ [layers |-> <<"a">>, ref |-> 0], Set(i, "geometry") @@ [alphaIn |-> "60.0", alphaOut |-> "15.0", scattering |-> "100.0"], Set(i, "beam") @@ [energy |-> <<>>, weight |-> <<"1.0">>, characteristic |-> <<>>, divergency |-> <<>>],
                      Set(i, "filters") @@ [layers |-> <<"b">>], Set(i, "userFilters") @@ [tables |-> <<"t">>], Set(i, "userAttenuators") @@ [tables |-> <<"t">>],
                      Set(i, "sampleName") @@ [name |-> "Cu", density |-> "8.9", thickness |-> "0.2"]} ELSE {})
Changes == {[op |-> "lay.setDensity", id |-> "a", v |-> "5.0"], [op |-> "lay.setMaterial", id |-> "c", mat |-> "m"], [op |-> "det.set", id |-> "d", what |-> "diameter", v |-> "0.8"]}
           \cup (IF Wide THEN {[op |-> "tt.set", id |-> "t", form |-> "vec", energy |-> <<"1.0">>, transmission |-> <<"0.5">>], [op |-> "beam.set", id |-> "b1", form |-> "vec", energy |-> <<"8.0">>, weight |-> <<"1.0">>, characteristic |-> <<>>, divergency |-> <<>>]} ELSE {})
Copies == {[op |-> "xrf.copy", id |-> "y", from |-> "x"], [op |-> "xrf.copy", id |-> "x", from |-> "y"]}
Ops == Settings("x") \cup (IF Wide THEN Settings("y") ELSE {Set("y", "attenuators") @@ [layers |-> <<"b">>]}) \cup Changes \cup Copies
Init == StartIn(Start)
Next == Step(Ops)
Spec == Init /\ [][Next]_<<st, hist>>

PartsOf(w) == CASE w \in {"beam", "single"} -> {"beam"} [] w \in {"sample", "sample1", "sampleName"} -> {"sample", "reference"}
                [] w = "geometry" -> {"alphaIn", "alphaOut", "scattering"} [] OTHER -> {w}
\* a call changes at most what it is about
Frame == [][LET e == hist'[Len(hist')] IN
            CASE e.op = "xrf.set" -> /\ \A i \in {"x", "y"} \ {e.id} : st'.xrf[i] = st.xrf[i]
                                     /\ \A k \in Parts \ PartsOf(e.what) : st'.xrf[e.id][k] = st.xrf[e.id][k]
                                     /\ \A k \in {"lay", "det", "tt", "beam", "mat"} : st'[k] = st[k]
              [] e.op = "xrf.copy" -> st'.xrf[e.id] = st.xrf[e.from] /\ \A i \in {"x", "y"} \ {e.id} : st'.xrf[i] = st.xrf[i]
              [] OTHER -> st'.xrf = st.xrf]_<<st, hist>>
\* what is set is what is found, whatever was there before
Kept == [][LET e == hist'[Len(hist')] IN (e.op = "xrf.set" /\ Do(st, e).res # <<Err>>) =>
           LET z == Do([st EXCEPT !.xrf[e.id] = NewConfig], e).st IN \A k \in PartsOf(e.what) : st'.xrf[e.id][k] = z.xrf[e.id][k]]_<<st, hist>>
\* the reference layer is a layer of the sample
InvReference == \A i \in {"x", "y"} : st.xrf[i].reference = 0 \/ st.xrf[i].reference < Len(st.xrf[i].sample)
InvBeam == \A i \in {"x", "y"} : LET c == BeamColumns(st.xrf[i].beam) IN Len(c[1]) = 0 \/ FNear(FSumSeq(c[2]), One, "1E-12", "0.0")
=============================================================================
