----------------------------- MODULE MCSpecFile -----------------------------
(* Every SPEC file of a few lines, built line by line; each one is also       *)
(* printed, and replayed into the library.                                    *)
EXTENDS Text, Json
CONSTANT MaxLines
VARIABLE f
Alphabet == {"#S 1", "#L a  b c", "1 2", "3", "", "#C 7", " "}
Init == f = <<>>
Next == /\ Len(f) < MaxLines
        /\ \E l \in Alphabet : f' = Append(f, l)
        /\ (f' # <<>> /\ PrintT("@@FILE " \o ToJson(f')))
Spec == Init /\ [][Next]_f
Starts == ScanStarts(f)
Ends == [k \in 1..Len(Starts) |-> ScanEnd(f, Starts[k])]
\* each start line begins exactly one scan, in order, and scans do not overlap
InvScans == /\ \A k \in 1..Len(Starts) : IsStart(f[Starts[k]]) /\ Ends[k] >= Starts[k]
            /\ \A k \in 1..(Len(Starts) - 1) : Ends[k] < Starts[k + 1]
            /\ \A i \in 1..Len(f) : IsStart(f[i]) => \E k \in 1..Len(Starts) : Starts[k] = i
\* no blank line within a scan, and a scan is left only at a blank line, at the next scan or at the end
InvBlank == \A k \in 1..Len(Starts) : /\ \A i \in Starts[k]..Ends[k] : ~IsBlank(f[i])
                                      /\ Ends[k] = Len(f) \/ IsBlank(f[Ends[k] + 1]) \/ IsStart(f[Ends[k] + 1])
\* every value of a scan comes from a line of that scan
InvValues == \A k \in 1..Len(Starts) : Len(ScanRows(f, k)) = Cardinality({i \in Starts[k]..Ends[k] : f[i] \in {"1 2", "3"}})
\* what is written after a scan never changes it
Stable == [][\A k \in 1..(ScanCount(f) - 1) : ScanLines(f', k) = ScanLines(f, k)]_f
StableClosed == [][\A k \in 1..ScanCount(f) : ScanEnd(f, Starts[k]) < Len(f) => ScanData(f', k) = ScanData(f, k) /\ ScanLabels(f', k) = ScanLabels(f, k)]_f
=============================================================================
