---------------------------- MODULE MCConfigFile ----------------------------
(* Every configuration file made of a few sections, in every order; each one  *)
(* is printed, and read by the library after other files and alone.           *)
EXTENDS Config, Json
CONSTANTS MaxBlocks, Blocks
VARIABLES f   \* the sections of the file, in order
Block(b) ==
  CASE b = "fit" -> <<"[fit]", "energy = 10.0, 20.0, 5.0, 7.5", "energyweight = 1.0, 2.0, 4.0, 1.0", "energyflag = 1, 0, 1, 1", "energyscatter = 1, 1, 0, 1">>
    [] b = "fit2" -> <<"[fit]", "energy = 17.5">>
    [] b = "Fit" -> <<"[Fit]", "energy = None, 8.0", "energyweight = 1.0, 3.0", "energyflag = 1, 1">>
    [] b = "result" -> <<"[result.config]", "energy = 12.0", "energyflag = 1">>
    [] b = "matrix" -> <<"[attenuators]", "Matrix = 1, Alloy, 7.0, 0.01, 30.0, 60.0, 0, 90.0", "Detector = 1, Si, 2.33, 0.05, 1.0">>
    [] b = "layers" -> <<"[attenuators]", "Matrix = 1, MULTILAYER, 0.0, 0.0, 45.0, 45.0, 1, 75.0", "BeamFilter0 = 1, Gas, 0.0, 0.5, 1.0", "air = 1, Gas, 0.001, 5.0, 0.5">>
    [] b = "idle" -> <<"[attenuators]", "Matrix = 0, Fe, 7.0, 0.01, 30.0, 60.0, 0, 90.0", "Detector = 0, Si, 2.33, 0.05, 1.0", "window = 1, Be, 1.85, 0.002, 1.0">>
    [] b = "multi" -> <<"[multilayer]", "Layer0 = 1, Alloy, 7.0, 0.001", "Layer1 = 0, Fe, 7.8, 0.002", "Layer2 = 1, Cu, 8.9, 0.003">>
    [] b = "alloy" -> <<"[Materials.Alloy]", "Density = 8.1", "CompoundList = Fe, Cu", "CompoundFraction = 1.0, 3.0", "Comment = an alloy">>
    [] b = "gas" -> <<"[Materials.Gas]", "Comment = dry", "CompoundList = C", "CompoundFraction = 1.0", "Thickness = 2.0", "Density = 0.0012">>
    [] b = "conc" -> <<"[concentrations]", "distance = 3.0", "area = 0.5", "time = 1.0">>
    [] b = "conc2" -> <<"[concentrations]", "area = 0.25">>
    [] b = "badconc" -> <<"[concentrations]", "distance = -1.0">>
    [] b = "foil" -> <<"[UserBeamFilters.Foil]", "energy = 1.0, 10.0, 30.0", "transmission = 0.1, 0.5, 0.9", "use = 1">>
    [] b = "cap" -> <<"[UserAttenuators.Cap]", "use = 1", "transmission = 0.2, 0.4", "energy = 2.0, 20.0", "comment = lid">>
    [] b = "spare" -> <<"[UserAttenuators.Spare]", "use = 0", "transmission = 0.2", "energy = 2.0">>
Lines0(q) == FoldLeft(LAMBDA a, b : a \o Block(b), <<>>, q)
Init == f = <<>>
Next == /\ Len(f) < MaxBlocks
        /\ \E b \in Blocks \ Range(f) : f' = Append(f, b)
        /\ PrintT("@@FILE " \o ToJson(Lines0(f')))
Spec == Init /\ [][Next]_f
Read(c, q) == ReadConfig(c, Lines0(q))
Alone(q) == Memo(SJoin(<<"file ">> \o FoldLeft(LAMBDA a, b : a \o <<b, " ">>, <<>>, q)), Deep(Read(NewConfig, q)))
Understood(r) == "cfg" \in DOMAIN r
Listed == {"materials", "userFilters", "userAttenuators"}
Section0(b) == Block(b)[1]
Distinct(q) == \A i, j \in 1..Len(q) : i # j => SLower(Section0(q[i])) # SLower(Section0(q[j]))
Backwards(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* the order of the sections does not matter, but for that of lists of things
InvOrder == Distinct(f) =>
  LET a == Alone(f) b == Alone(Backwards(f)) IN
  /\ DOMAIN a = DOMAIN b
  /\ Understood(a) => \A k \in Parts : IF k \in Listed THEN Range(a.cfg[k]) = Range(b.cfg[k]) ELSE a.cfg[k] = b.cfg[k]
\* nothing remains of what was configured before
Others == <<<<"fit", "layers", "multi", "gas", "foil", "cap">>, <<"result">>, <<"fit", "matrix", "alloy", "conc">>>>
InvFresh == LET o == Others[(Len(f) % 3) + 1] before == Alone(o) a == Alone(f) IN
  (Understood(before) /\ Understood(a)) => Deep(Read(before.cfg, f)) = a
\* the rays are the energies in use, with weights adding to one; layers are those of the lines in use
InvBeam == LET a == Alone(f) IN Understood(a) => LET c == BeamColumns(a.cfg.beam) IN
  /\ Len(c[1]) = 0 \/ FNear(FSumSeq(c[2]), One, "1E-12", "0.0")
  /\ "fit" \in Range(f) /\ Range(f) \cap {"fit2", "Fit"} = {} => Len(c[1]) = 3
InvUsed == LET a == Alone(f) IN Understood(a) =>
  /\ \A l \in Range(a.cfg.sample) \cup Range(a.cfg.attenuators) \cup Range(a.cfg.filters) : l.name \notin {"Layer1", "Detector"}
  /\ Len(a.cfg.userAttenuators) = (IF "cap" \in Range(f) THEN 1 ELSE 0)
  /\ Len(a.cfg.materials) = Cardinality(Range(f) \cap {"alloy", "gas"})
\* a section changes only what it is about
About(b) == CASE b \in {"fit", "fit2", "Fit", "result"} -> {"beam"} [] b \in {"matrix", "layers", "idle"} -> {"sample", "alphaIn", "alphaOut", "scattering", "filters", "attenuators", "detector"}
              [] b = "multi" -> {"sample"} [] b \in {"alloy", "gas"} -> {"materials", "sample", "filters", "attenuators", "detector"} [] b \in {"conc", "conc2", "badconc"} -> {"detector"}
              [] b = "foil" -> {"userFilters"} [] b \in {"cap", "spare"} -> {"userAttenuators"}
Frame == [][LET a == Alone(f) b == Alone(f') IN (Understood(a) /\ Understood(b)) => \A k \in Parts \ About(f'[Len(f')]) : a.cfg[k] = b.cfg[k]]_f
=============================================================================
