-------------------------------- MODULE Text --------------------------------
(* The files the library reads: SPEC style data files and INI style           *)
(* configuration files.  A file is its sequence of lines.                     *)
EXTENDS Base

Spaces == {" ", "\t", "\n", "\r", "\f"}
IsSpace(c) == c \in Spaces

\* ---- cutting strings
RECURSIVE SplitFrom(_, _, _, _, _)
\* characters c cut at every one in seps; empty pieces kept
SplitFrom(c, seps, i, cur, out) ==
  IF i > Len(c) THEN Append(out, SJoin(cur))
  ELSE IF c[i] \in seps THEN SplitFrom(c, seps, i + 1, <<>>, Append(out, SJoin(cur)))
  ELSE SplitFrom(c, seps, i + 1, Append(cur, c[i]), out)
\* as std::getline: nothing after a final separator, nothing at all from an empty string
Pieces(s, sep) ==
  LET p == SplitFrom(SChars(s), {sep}, 1, <<>>, <<>>)
  IN IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
TrimOf(s, set) ==
  LET c == SChars(s)
      K == {i \in 1..Len(c) : c[i] \notin set}
  IN IF K = {} THEN "" ELSE SubSeq(s, Min(K), Max(K))
TrimRight(s, set) ==
  LET c == SChars(s)
      K == {i \in 1..Len(c) : c[i] \notin set}
  IN IF K = {} THEN "" ELSE SubSeq(s, 1, Max(K))
Words(s, set) == SelectSeq(SplitFrom(SChars(s), set, 1, <<>>, <<>>), LAMBDA x : x # "")

\* ---- files
FileLines(e) ==
  IF e.last = 0 /\ Len(e.lines) > 0 /\ e.lines[Len(e.lines)] = "" THEN SubSeq(e.lines, 1, Len(e.lines) - 1) ELSE e.lines
Exists(st, p) == p \in DOMAIN st.fs
Content(st, p) == IF Exists(st, p) THEN st.fs[p] ELSE <<>>

\* ---- SPEC files
IsStart(l) == SPrefix("#S", l)
IsBlank(l) == Len(l) = 0 \/ (Len(l) = 1 /\ IsSpace(l))
ScanStarts(f) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : IsStart(f[i]))
\* a scan goes on until a blank line, the next scan or the end of the file
ScanEnd(f, s) == Min({j \in (s+1)..Len(f) : IsBlank(f[j]) \/ IsStart(f[j])} \cup {Len(f) + 1}) - 1
ScanLines(f, k) == LET s == Deep(ScanStarts(f)[k]) IN Deep(SubSeq(f, s, ScanEnd(f, s)))
ScanCount(f) == Len(ScanStarts(f))

RECURSIVE LabelsFrom(_, _, _, _)
\* labels are separated by two spaces or more: a single space belongs to the label
LabelsFrom(c, i, cur, out) ==
  IF i > Len(c) THEN IF Len(cur) > 0 THEN Append(out, SJoin(cur)) ELSE out
  ELSE IF c[i] = " " /\ i < Len(c) /\ c[i + 1] = " "
       THEN LET j == Min({k \in i..Len(c) : c[k] # " "} \cup {Len(c) + 1}) IN LabelsFrom(c, j, <<>>, Append(out, SJoin(cur)))
       ELSE LabelsFrom(c, i + 1, Append(cur, c[i]), out)
NoCR(l) == IF SSuffix("\r", l) THEN SubSeq(l, 1, Len(l) - 1) ELSE l
LabelLine(l) ==
  LET t == TrimOf(SubSeq(NoCR(l), 3, Len(NoCR(l))), {" "}) IN LabelsFrom(SChars(t), 1, <<>>, <<>>)
ScanLabels(f, k) ==
  LET s == ScanLines(f, k)
      K == {i \in 1..Len(s) : SPrefix("#L", s[i])}
  IN IF K = {} THEN Err ELSE Ok(LabelLine(s[Min(K)]))

NumberChars == Digits \cup {"+", "-", ".", "e", "E"}
RECURSIVE NumbersFrom(_, _, _, _)
NumbersFrom(c, i, cur, out) ==
  LET done == IF Len(cur) > 0 THEN Append(out, SJoin(cur)) ELSE out IN
  IF i > Len(c) THEN done
  ELSE IF c[i] \in NumberChars THEN NumbersFrom(c, i + 1, Append(cur, c[i]), out)
  ELSE NumbersFrom(c, i + 1, <<>>, done)
NumberOf(t) == LET p == SNumPrefix(t) IN IF p[2] = 0 THEN Zero ELSE p[1]
DataLine(l) == LET n == Deep(NumbersFrom(SChars(l), 1, <<>>, <<>>)) IN Deep([i \in 1..Len(n) |-> NumberOf(n[i])])
ScanRows(f, k) ==
  LET s == SelectSeq(ScanLines(f, k), LAMBDA l : ~SPrefix("#", l))
  IN Deep(SelectSeq(Deep([i \in 1..Len(s) |-> DataLine(s[i])]), LAMBDA r : Len(r) > 0))
ScanData(f, k) ==
  LET r == Deep(ScanRows(f, k))
  IN IF \A i \in 1..Len(r) : Len(r[i]) = Len(r[1]) THEN Ok(r) ELSE Err

SpecDo(st, e) ==
  LET open == [st |-> [st EXCEPT !.spec = Put(@, e.id, Content(st, e.file))], res |-> <<Ok("*")>>]
      f == st.spec[e.id]
      say(r) == [st |-> st, res |-> <<r>>]
      valid == e.i >= 0 /\ e.i < ScanCount(f)
  IN CASE e.op = "spec.new" -> [st |-> [st EXCEPT !.spec = Put(@, e.id, <<>>)], res |-> <<Ok("*")>>]
       [] e.op \in {"spec.open", "spec.setFile"} -> open
       [] e.op = "spec.n" -> say(Ok(ScanCount(f)))
       [] e.op = "spec.labels" -> say(IF valid THEN ScanLabels(f, e.i + 1) ELSE Err)
       [] e.op = "spec.data" -> say(IF valid THEN ScanData(f, e.i + 1) ELSE Err)

\* ---- INI files
IsSection(t) == SPrefix("[", t)
\* "[name] anything": exactly one closing bracket, no second opening one, a name in between
SectionOk(t) ==
  LET c == SChars(t) IN
  /\ Cardinality({i \in 1..Len(c) : c[i] = "["}) = 1
  /\ Cardinality({i \in 1..Len(c) : c[i] = "]"}) = 1
  /\ SAt(t, 2) # "]"
SectionName(t) == LET c == SChars(t) IN SubSeq(t, 2, (CHOOSE i \in 1..Len(c) : c[i] = "]") - 1)

\* a line without its comment; outside quotes, spaces before the first equal sign do not count
RECURSIVE IniScan(_, _, _, _, _)
IniScan(c, i, quotes, eq, out) ==
  IF i > Len(c) THEN [text |-> SJoin(out), quotes |-> quotes, eq |-> eq]
  ELSE IF c[i] = "\"" THEN IniScan(c, i + 1, quotes + 1, eq, Append(out, c[i]))
  ELSE IF quotes % 2 = 1 THEN IniScan(c, i + 1, quotes, eq, Append(out, c[i]))
  ELSE IF c[i] \in {"#", ";"} THEN [text |-> SJoin(out), quotes |-> quotes, eq |-> eq]
  ELSE LET o == IF eq = 0 /\ IsSpace(c[i]) THEN out ELSE Append(out, c[i])
       IN IniScan(c, i + 1, quotes, IF c[i] = "=" /\ eq = 0 THEN Len(o) ELSE eq, o)

IniStart == [ok |-> TRUE, sections |-> <<>>, contents |-> EmptyMap, section |-> "", key |-> ""]
SetKey(m, s, k, v) == Put(m, s, Put(Get(m, s, EmptyMap), k, v))
IniLine(a, line) ==
  LET t == TrimOf(line, Spaces) IN
  IF ~a.ok \/ t = "" THEN a
  ELSE IF IsSection(t)
  THEN IF SectionOk(t) THEN [a EXCEPT !.section = SectionName(t), !.key = "", !.sections = Append(@, SectionName(t))]
       ELSE [a EXCEPT !.ok = FALSE]
  ELSE LET r == IniScan(SChars(t), 1, 0, 0, <<>>) IN
       IF r.quotes % 2 = 1 THEN [a EXCEPT !.ok = FALSE]
       ELSE IF r.text = "" THEN a
       ELSE IF r.eq > 1 THEN LET k == SubSeq(r.text, 1, r.eq - 1)
                                 v == SubSeq(r.text, r.eq + 1, Len(r.text))
                             IN [a EXCEPT !.key = k, !.contents = SetKey(@, a.section, k, v)]
       \* a line without an equal sign continues the value of the last key
       ELSE IF a.key # "" /\ a.section # "" THEN [a EXCEPT !.contents = SetKey(@, a.section, a.key, @[a.section][a.key] \o r.text)]
       ELSE a
Ini(f) == Deep(FoldLeft(IniLine, IniStart, f))

SameText(a, b, cs) == IF cs THEN a = b ELSE SUpper(a) = SUpper(b)
Subsections(x, parent, cs) ==
  IF parent = "" THEN x.sections
  ELSE SelectSeq(x.sections, LAMBDA s : Len(s) > Len(parent) /\ SameText(SubSeq(s, 1, Len(parent) + 1), parent \o ".", cs))
\* an exact match with any content goes first
Section(x, name, cs) ==
  IF name \in DOMAIN x.contents THEN x.contents[name]
  ELSE LET S == SelectSeq(x.sections, LAMBDA s : SameText(s, name, FALSE))
       IN IF cs \/ Len(S) = 0 THEN EmptyMap ELSE Get(x.contents, S[1], EmptyMap)

\* ---- values out of text
FirstWord(s) == LET w == Words(s, Spaces) IN IF Len(w) = 0 THEN "" ELSE w[1]
SkipSpaces(s) == LET c == SChars(s) K == {i \in 1..Len(c) : ~IsSpace(c[i])} IN IF K = {} THEN "" ELSE SubSeq(s, Min(K), Len(s))
AsDouble(s, d) == LET p == SNumPrefix(SkipSpaces(s)) IN IF p[2] = 0 THEN d ELSE p[1]
IntChars(s) == LET t == SkipSpaces(s)
                   h == IF SPrefix("-", t) \/ SPrefix("+", t) THEN 1 ELSE 0
                   c == SChars(t)
                   n == Min({i \in (h+1)..Len(c) : c[i] \notin Digits} \cup {Len(c) + 1}) - 1
               IN IF n = h THEN "" ELSE SubSeq(t, 1, n)
AsInt(s, d) == LET t == IntChars(s) IN IF t = "" THEN d ELSE FInt(t)
AsWord(s, d) == IF FirstWord(s) = "" THEN d ELSE FirstWord(s)
Doubles(s, d) == LET p == Pieces(s, ",") IN [i \in 1..Len(p) |-> AsDouble(p[i], d)]
WordsOf(s, sep, d) == LET p == Pieces(s, sep) IN [i \in 1..Len(p) |-> AsWord(p[i], d)]

ParseValue(e) ==
  LET sep == Get(e, "sep", ",")
      p == Pieces(e.s, sep)
  IN CASE e.type = "double" -> Ok(AsDouble(e.s, e.dflt))
       [] e.type = "int" -> Ok(AsInt(e.s, e.dflt))
       [] e.type = "string" -> Ok(AsWord(e.s, e.dflt))
       [] e.type = "doubles" -> Ok([i \in 1..Len(p) |-> AsDouble(p[i], e.dflt)])
       [] e.type = "ints" -> Ok([i \in 1..Len(p) |-> AsInt(p[i], e.dflt)])
       [] e.type = "strings" -> Ok([i \in 1..Len(p) |-> AsWord(p[i], e.dflt)])
       [] e.type = "upper" -> Ok(SUpper(e.s))
       [] e.type = "lower" -> Ok(SLower(e.s))
       [] e.type = "starts" -> Ok(IF SPrefix(e.with, e.s) THEN 1 ELSE 0)

IniDo(st, e) ==
  LET say(r) == [st |-> st, res |-> <<r>>]
      set(x) == [st |-> [st EXCEPT !.ini = Put(@, e.id, x)], res |-> <<Ok("*")>>]
      bad == [st |-> [st EXCEPT !.ini = Put(@, e.id, Void)], res |-> <<Err>>]
  IN CASE e.op = "ini.parse" -> say(ParseValue(e))
       [] e.op = "ini.new" -> set(IniStart)
       [] e.op \in {"ini.open", "ini.read"} ->
            IF ~Exists(st, e.file) THEN (IF e.op = "ini.read" THEN say(Err) ELSE bad)
            ELSE LET x == Ini(st.fs[e.file]) IN IF x.ok THEN set(x) ELSE bad
       [] OTHER ->
            LET x == st.ini[e.id] IN
            IF IsVoid(x) THEN say("*")
            ELSE CASE e.op = "ini.sections" -> say(Ok(x.sections))
                   [] e.op = "ini.subsections" -> say(Ok(Subsections(x, e.parent, Get(e, "cs", 1) # 0)))
                   [] e.op = "ini.section" -> say(Ok(Section(x, e.section, Get(e, "cs", 1) # 0)))
=============================================================================
