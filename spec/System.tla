------------------------------- MODULE System -------------------------------
(* The parts of the library that need no element library: state is the set of *)
(* live objects and files, transitions are the public calls.                  *)
EXTENDS Element, Text, Maths, Instruments
InitState == [shell |-> EmptyMap, el |-> EmptyMap, fs |-> EmptyMap, spec |-> EmptyMap, ini |-> EmptyMap, beam |-> EmptyMap, tt |-> EmptyMap]
FileDo(st, e) == [st |-> [st EXCEPT !.fs = Put(@, e.path, FileLines(e))], res |-> <<Ok("*")>>]
Do(st, e) ==
  LET p == SubSeq(e.op, 1, 3) IN
  CASE p = "sh." -> ShellDo(st, e)
    [] p = "el." -> ElementDo(st, e)
    [] e.op = "file" -> FileDo(st, e)
    [] p = "spe" -> SpecDo(st, e)
    [] p = "ini" -> IniDo(st, e)
    [] p = "bea" -> BeamDo(st, e)
    [] p = "tt." -> TableDo(st, e)
    [] e.op = "math" -> MathDo(st, e)
Tol(e) == IF "tol" \in DOMAIN e THEN e.tol ELSE IF e.op = "math" THEN MathTol(e.f, e.x) ELSE IF SubSeq(e.op, 1, 3) = "el." THEN <<"2E-6", "1E-14">> ELSE <<"1E-9", "1E-14">>
=============================================================================
