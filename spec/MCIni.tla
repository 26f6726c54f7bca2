------------------------------- MODULE MCIni -------------------------------
(* Every INI file of a few lines; each one is also printed, and replayed into *)
(* the library.                                                               *)
EXTENDS Text, Json
CONSTANT MaxLines
VARIABLE f
Alphabet == {"[a]", "[A.b]", "k = 1", "k=2 ; x", " 3 #y", "# z", "", "\"q = 1"}
Init == f = <<>>
Next == /\ Len(f) < MaxLines
        /\ \E l \in Alphabet : f' = Append(f, l)
        /\ PrintT("@@FILE " \o ToJson(f'))
Spec == Init /\ [][Next]_f
Good(x) == x.ok
\* every key is under a section of the file, but for keys before the first section
InvSections == LET x == Ini(f) IN Good(x) => DOMAIN x.contents \subseteq (Range(x.sections) \cup {""})
\* comments and blank lines change nothing; a refused file stays refused; nothing written is lost
Keeps == [][LET x == Ini(f) y == Ini(f') l == f'[Len(f')] IN
            /\ (~x.ok => ~y.ok)
            /\ (x.ok /\ l \in {"", "# z"} => x = y)
            /\ (x.ok /\ y.ok => /\ SubSeq(y.sections, 1, Len(x.sections)) = x.sections
                                /\ \A s \in DOMAIN x.contents : DOMAIN x.contents[s] \subseteq DOMAIN y.contents[s]
                                /\ \A s \in DOMAIN x.contents \ {y.section} : y.contents[s] = x.contents[s])]_f
\* lookups: an exact name wins, the case does not matter when told so, a missing section is empty
InvLookup == LET x == Ini(f) IN Good(x) =>
   /\ \A n \in {"a", "A", "A.b", "a.B", "zz"} : Section(x, n, TRUE) = Get(x.contents, n, EmptyMap)
   /\ (Section(x, "A", FALSE) = Get(x.contents, "a", EmptyMap))
   /\ Section(x, "zz", FALSE) = EmptyMap
   /\ Subsections(x, "a", TRUE) = <<>> /\ Len(Subsections(x, "a", FALSE)) = Len(Subsections(x, "A", TRUE))
=============================================================================
