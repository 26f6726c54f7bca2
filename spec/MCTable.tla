------------------------------ MODULE MCTable ------------------------------
(* Every transmission table of a few points and every beam of a few rays.     *)
EXTENDS Instruments, Json
CONSTANTS MaxPoints, MaxRays
VARIABLES pts, form, rays
Es == {"0.0", "1.0", "2.0"}
Ts == {"0.25", "1.0"}
Ws == {"0.0", "1.0", "3.0"}
Init == pts = <<>> /\ rays = <<>> /\ form \in {"vec", "map"}
Op == [form |-> form, energy |-> [i \in 1..Len(pts) |-> pts[i][1]], transmission |-> [i \in 1..Len(pts) |-> pts[i][2]]]
Next ==
  \/ /\ Len(pts) < MaxPoints /\ rays = <<>>
     /\ \E x \in Es, y \in Ts :
          /\ (form = "map" => ~\E i \in 1..Len(pts) : pts[i][1] = x)
          /\ pts' = Append(pts, <<x, y>>)
     /\ UNCHANGED <<form, rays>>
     /\ PrintT("@@TABLE " \o ToJson(Op'))
  \/ /\ Len(rays) < MaxRays /\ pts = <<>> /\ form = "vec"
     /\ \E x \in Es, w \in Ws : rays' = Append(rays, <<x, w>>)
     /\ UNCHANGED <<form, pts>>
     /\ PrintT("@@BEAM " \o ToJson([energy |-> [i \in 1..Len(rays') |-> rays'[i][1]], weight |-> [i \in 1..Len(rays') |-> rays'[i][2]]]))
Spec == Init /\ [][Next]_<<pts, form, rays>>

T0 == NewTable("", "")
Accepted == TableOk(T0, Op)
Table == IF Accepted THEN SetTable(T0, Op).table ELSE T0.table
Probes == {"0.0", "0.5", "1.0", "1.0000005", "1.000001", "1.5", "2.0", "7.0"}
\* a table that is accepted is ordered; transmissions stay between the tabulated ones; tabulated points are reproduced
InvTable ==
  LET t == Table n == Len(t) IN
  /\ \A i \in 1..(n - 1) : FLt(t[i][1], t[i + 1][1])
  /\ \A E \in Probes : LET v == TransmissionAt(t, E) IN
       /\ n > 0 => (\E i \in 1..n : FLe(t[i][2], v)) /\ (\E i \in 1..n : FLe(v, t[i][2]))
       /\ \A i \in 1..n : FEq(t[i][1], E) => FEq(v, t[i][2])
  /\ (Accepted /\ form = "map") => n = Len(pts)
\* weights add to one; no ray is lost; the order of the energies does not matter
Beam == SetBeam([energy |-> [i \in 1..Len(rays) |-> rays[i][1]], weight |-> [i \in 1..Len(rays) |-> rays[i][2]]])
InvBeam ==
  LET b == Beam n == Len(b) c == BeamColumns(b) IN
  /\ n = Len(rays)
  /\ (n > 0 /\ \E i \in 1..n : FPos(rays[i][2])) => FNear(FSumSeq(c[2]), One, "1E-12", "0.0")
  /\ Sorted(c[1])
  /\ \A i, j \in 1..n : FEq(FMul(b[i].weight, rays[j][2]), FMul(b[j].weight, rays[i][2])) \/ FNear(FMul(b[i].weight, rays[j][2]), FMul(b[j].weight, rays[i][2]), "1E-12", "0.0")
InvRefused == LET e == Op IN ~Accepted => ~Sorted(e.energy)
=============================================================================
