---------------------------- MODULE Instruments ----------------------------
(* Beams and transmission tables.                                             *)
EXTENDS Base

\* ---- beams: a bag of rays, reported by increasing energy (rays of equal energy in any order), weights adding to one
Ray(E, w, c, d) == [energy |-> E, weight |-> w, characteristic |-> c, divergency |-> d]
At(v, i, default) == IF Len(v) = 0 THEN default ELSE IF Len(v) = 1 THEN v[1] ELSE v[i]
Complete(v, n) == Len(v) \in {0, 1} \/ Len(v) >= n
Normalized(rays) ==
  LET total == FSumSeq([i \in 1..Len(rays) |-> rays[i].weight])
  IN IF FPos(total) THEN [i \in 1..Len(rays) |-> [rays[i] EXCEPT !.weight = FDiv(@, total)]] ELSE rays
SetBeam(e) ==
  LET f(k) == Get(e, k, <<>>) IN
  Normalized([i \in 1..Len(e.energy) |-> Ray(e.energy[i], At(f("weight"), i, One), At(f("characteristic"), i, 1), At(f("divergency"), i, Zero))])
BeamOk(e) == \A k \in {"weight", "characteristic", "divergency"} : Complete(Get(e, k, <<>>), Len(e.energy))
SingleBeam(e) == <<Ray(e.energy, One, 1, Get(e, "divergency", Zero))>>

Orders(rays) ==
  LET n == Len(rays)
      sorted(p) == \A i \in 1..(n - 1) : FLe(rays[p[i]].energy, rays[p[i + 1]].energy)
      first == SetToSortSeq(1..n, LAMBDA i, j : FLt(rays[i].energy, rays[j].energy) \/ (FEq(rays[i].energy, rays[j].energy) /\ i < j))
      ties == {i \in 1..(n - 1) : FEq(rays[first[i]].energy, rays[first[i + 1]].energy)}
  IN IF ties = {} THEN <<first>> ELSE SetToSeq({p \in Permutations(1..n) : sorted(p)})
Columns(rays, p) ==
  LET n == Len(rays) IN
  <<[i \in 1..n |-> rays[p[i]].energy], [i \in 1..n |-> rays[p[i]].weight],
    [i \in 1..n |-> rays[p[i]].characteristic], [i \in 1..n |-> rays[p[i]].divergency]>>
BeamAnswers(rays) == LET o == Deep(Orders(rays)) IN [k \in 1..Len(o) |-> Ok(Columns(rays, o[k]))]
BeamColumns(rays) == Columns(rays, Deep(Orders(rays))[1])

BeamDo(st, e) ==
  LET set(b) == [st |-> [st EXCEPT !.beam = Put(@, e.id, b)], res |-> <<Ok("*")>>]
  IN CASE e.op = "beam.new" -> set(<<>>)
       [] e.op = "beam.set" -> IF BeamOk(e) THEN set(SetBeam(e)) ELSE [st |-> st, res |-> <<Err>>]
       [] e.op = "beam.single" -> set(SingleBeam(e))
       [] e.op = "beam.get" -> [st |-> st, res |-> BeamAnswers(st.beam[e.id])]

\* ---- transmission tables: a function of energy, linear between its points and constant outside
NewTable(name, comment) == [name |-> name, comment |-> comment, table |-> <<<<Zero, One>>>>]
NotNegative(v) == \A i \in 1..Len(v) : ~FLt(v[i], Zero)
Sorted(v) == \A i \in 1..(Len(v) - 1) : ~FLt(v[i + 1], v[i])
RECURSIVE Insert(_, _, _)
\* ordered by energy; an equal energy is replaced
Insert(t, x, y) ==
  IF Len(t) = 0 THEN <<<<x, y>>>>
  ELSE IF FEq(x, t[Len(t)][1]) THEN [t EXCEPT ![Len(t)] = <<t[Len(t)][1], y>>]
  ELSE IF FGt(x, t[Len(t)][1]) THEN Append(t, <<x, y>>)
  ELSE Append(Insert(SubSeq(t, 1, Len(t) - 1), x, y), t[Len(t)])
HasEnergy(t, x) == \E i \in 1..Len(t) : FEq(t[i][1], x)
RECURSIVE Fill(_, _, _, _, _)
\* given as two vectors, the second point at an energy counts one meV above it
Fill(t, xs, ys, i, vec) ==
  IF i > Len(xs) THEN t
  ELSE Fill(Insert(t, IF vec /\ HasEnergy(t, xs[i]) THEN FAdd(xs[i], "0.000001") ELSE xs[i], ys[i]), xs, ys, i + 1, vec)
TableOk(t, e) ==
  LET vec == Get(e, "form", "vec") = "vec" IN
  /\ ~(Len(t.name) > 0 /\ Len(Get(e, "name", "")) > 0)
  /\ ~(Len(t.comment) > 0 /\ Len(Get(e, "comment", "")) > 0)
  /\ vec => Len(e.energy) = Len(e.transmission) /\ Sorted(e.energy)
  /\ NotNegative(e.energy)
  /\ NotNegative(e.transmission)
SetTable(t, e) ==
  [name |-> IF Len(t.name) > 0 THEN t.name ELSE Get(e, "name", ""),
   comment |-> IF Len(t.comment) > 0 THEN t.comment ELSE Get(e, "comment", ""),
   table |-> Fill(<<>>, e.energy, e.transmission, 1, Get(e, "form", "vec") = "vec")]
TransmissionAt(t, E) ==
  LET n == Len(t)
      K == {i \in 1..n : FGt(t[i][1], E)}
  IN IF n = 0 THEN One
     ELSE IF K = {} THEN t[n][2]
     ELSE LET i == Min(K) IN
          IF i = 1 THEN t[1][2]
          ELSE LET f == FDiv(FSub(E, t[i - 1][1]), FSub(t[i][1], t[i - 1][1]))
               IN FAdd(FMul(f, t[i][2]), FMul(FSub(One, f), t[i - 1][2]))
TableOut(t) == t

TableDo(st, e) ==
  LET set(t) == [st |-> [st EXCEPT !.tt = Put(@, e.id, t)], res |-> <<Ok("*")>>]
      say(r) == [st |-> st, res |-> <<r>>]
      t == st.tt[e.id]
  IN CASE e.op = "tt.new" -> set(NewTable(e.name, Get(e, "comment", "")))
       [] e.op = "tt.default" -> set(NewTable("", ""))
       [] e.op = "tt.setName" -> set([t EXCEPT !.name = e.name])
       [] e.op = "tt.setComment" -> set([t EXCEPT !.comment = e.comment])
       [] e.op = "tt.set" -> IF TableOk(t, e) THEN set(SetTable(t, e)) ELSE say(Err)
       [] e.op = "tt.get" -> say(Ok(TableOut(t)))
       [] e.op = "tt.trans" -> say(Ok(TransmissionAt(t.table, e.energy)))
       [] e.op = "tt.transvec" -> say(Ok([i \in 1..Len(e.energies) |-> TransmissionAt(t.table, e.energies[i])]))
=============================================================================
