----------------------------- MODULE LibSystem -----------------------------
(* The whole library: everything of System, and element libraries with what   *)
(* is built on them.                                                          *)
EXTENDS Fluor
InitState == [shell |-> EmptyMap, el |-> EmptyMap, fs |-> EmptyMap, spec |-> EmptyMap, ini |-> EmptyMap, beam |-> EmptyMap, tt |-> EmptyMap,
              epdl |-> EmptyMap, lib |-> EmptyMap, mat |-> EmptyMap, lay |-> EmptyMap, det |-> EmptyMap, cfg |-> EmptyMap, xrf |-> EmptyMap]
FileDo(st, e) == [st |-> [st EXCEPT !.fs = Put(@, e.path, FileLines(e))], res |-> <<Ok("*")>>]
DoOne(st, e) ==
  LET p == SubSeq(e.op, 1, 3) IN
  CASE p = "sh." -> ShellDo(st, e)
    [] p = "el." -> ElementDo(st, e)
    [] e.op = "file" -> FileDo(st, e)
    [] p = "spe" -> SpecDo(st, e)
    [] p = "ini" -> IniDo(st, e)
    [] p = "bea" -> BeamDo(st, e)
    [] p = "tt." -> TableDo(st, e)
    [] p = "epd" -> EpdlDo(st, e)
    [] p = "lib" -> LibDo(st, e)
    [] p = "mat" /\ e.op # "math" -> MaterialDo(st, e)
    [] p = "lay" -> LayDo(st, e)
    [] p = "det" -> DetDo(st, e)
    [] e.op = "xrf.fluo" -> FluoDo(st, e)
    [] p \in {"xrf", "cfg"} /\ e.op # "xrf.fluo" -> ConfigDo(st, e)
    [] e.op = "math" -> MathDo(st, e)
\* threads that have nothing in common but what they only read: as if one ran after the other
RunList(st, ops) ==
  FoldLeft(LAMBDA a, o : LET r == DoOne(a.st, o) IN Deep([st |-> IF "q" \in DOMAIN o THEN a.st ELSE r.st, out |-> Append(a.out, r.res[1])]),
           [st |-> st, out |-> <<>>], ops)
Times(s, n) == FoldLeft(LAMBDA a, i : a \o s, <<>>, [i \in 1..n |-> i])
ThreadsDo(st, e) ==
  LET x == FoldLeft(LAMBDA a, l : LET r == RunList(a.st, l) IN Deep([st |-> r.st, out |-> Append(a.out, Times(r.out, Get(e, "rounds", 1)))]),
                    [st |-> st, out |-> <<>>], e.lists)
  IN [st |-> x.st, res |-> <<Ok(x.out)>>]
Do(st, e) == IF e.op = "threads" THEN ThreadsDo(st, e) ELSE DoOne(st, e)
Tol(e) == IF "tol" \in DOMAIN e THEN e.tol ELSE IF e.op = "math" THEN MathTol(e.f, e.x) ELSE IF SubSeq(e.op, 1, 3) \in {"el.", "lib", "epd", "thr", "lay", "det", "xrf", "cfg"} THEN <<"2E-6", "1E-14">> ELSE <<"1E-9", "1E-14">>
=============================================================================
