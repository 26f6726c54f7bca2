---------------------------- MODULE MCMaterials ----------------------------
(* Material libraries: every history over a few materials that refer to each  *)
(* other.                                                                     *)
EXTENDS Behave
CONSTANTS Third
Lib == [op |-> "lib.new", id |-> "l", form |-> "dir", dir |-> "data"]
Obj(i, n, names, amounts) == <<[op |-> "mat.new", id |-> i, name |-> n, density |-> "2.0", thickness |-> "0.1"],
                               [op |-> "mat.setComp", id |-> i, form |-> "vec", names |-> names, amounts |-> amounts]>>
Start == <<Lib>> \o Obj("oa", "m a", <<"SiO2">>, <<"3.0">>) \o Obj("ob", "m b", <<"m a", "H2O">>, <<"1.0", "3.0">>) \o Obj("oc", "m c", <<"m b", "m a">>, <<"0.5", "0.5">>)
Names == IF Third THEN {"m a", "m b", "m c"} ELSE {"m a", "m b"}
Comps == {[name |-> "m a", names |-> <<"Fe2O3", "H2O">>, amounts |-> <<"2.0", "6.0">>],
          [name |-> "m b", names |-> <<"m a", "Ca">>, amounts |-> <<"0.25", "0.75">>],
          [name |-> "m b", names |-> <<"H2O", "m a", "H2O">>, amounts |-> <<"1.0", "1.0", "2.0">>]} \cup
         (IF Third THEN {[name |-> "m c", names |-> <<"m b", "m a">>, amounts |-> <<"1.0", "4.0">>]} ELSE {})
Ops == {[op |-> "lib.addMaterial", id |-> "l", name |-> n, density |-> "1.5", thickness |-> "0.2", errorOnReplace |-> k] : n \in Names, k \in {0, 1}}
  \cup {[op |-> "lib.addMaterial", id |-> "l", mat |-> o, errorOnReplace |-> k] : o \in (IF Third THEN {"oa", "ob", "oc"} ELSE {"oa", "ob"}), k \in {0, 1}}
  \cup {[op |-> "lib.setMatComp", id |-> "l", form |-> "vec"] @@ c : c \in Comps}
  \cup {[op |-> "lib.removeMaterial", id |-> "l", name |-> n] : n \in Names}
  \cup {[op |-> "lib.removeMaterials", id |-> "l"]}
Init == StartIn(Start)
Next == Step(Ops)
Spec == Init /\ [][Next]_<<st, hist>>

L == st.lib["l"]
Whole(m) == IsStar(m) \/ IsErr(m) \/ DOMAIN m = {} \/ FNear(FSumMap(m), One, "1E-12", "0.0")
\* fractions are positive and add to one
InvFractions == \A n \in Names : LET c == Composition(L, n, <<>>) IN Whole(c) /\ (Plain2(c) => \A k \in DOMAIN c : FPos(c[k]))
\* only elements remain
InvElements == \A n \in Names : LET c == Composition(L, n, <<>>) IN Plain2(c) => DOMAIN c \subseteq DOMAIN DS.elements
\* names are unique, and the order in which materials were added does not matter
Reversed == [L EXCEPT !.mats = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
InvOrder == /\ \A i, j \in 1..Len(L.mats) : i # j => L.mats[i].name # L.mats[j].name
            /\ \A n \in Names : Composition(L, n, <<>>) = Composition(Reversed, n, <<>>)
\* what a material is made of does not depend on materials it does not refer to
InvLocal == \A i \in 1..Len(L.mats) : L.mats[i].name = "m a" => Composition(L, "m a", <<>>) = Composition([L EXCEPT !.mats = <<@[i]>>], "m a", <<>>)
=============================================================================
