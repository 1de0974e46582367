--------------------------- MODULE InstalledDb -----------------------------
(* The installed database: one block per package, its metadata lines (as in *)
(* an index, plus r:) and its files: F: a directory, with M: owner and      *)
(* permissions, R: a file in it, with a:.  A header of a package's archive  *)
(* is [p: components, d: directory?, uid, gid, perm].                       *)
EXTENDS Index, FiniteSetsExt
CONSTANT DVariant
SplitAt(s, ch) == LET Sp == {i \in 1..Len(s) : Char(s, i) = ch}  Bd == SetToSortSeq(Sp \cup {0, Len(s) + 1}, <)
                  IN [k \in 1..(Len(Bd) - 1) |-> SubSeq(s, Bd[k] + 1, Bd[k+1] - 1)]
Comps(s) == SelectSeq(SplitAt(s, "/"), LAMBDA c : c # "" /\ c # ".")
DEmpty == Empty @@ [repl |-> <<>>]
\* numbers as text: decimal ids (maybe negative), octal permissions
IsDec(s) == AllDigits(s) \/ (Len(s) > 1 /\ Char(s, 1) \in {"-", "+"} /\ AllDigits(SubSeq(s, 2, Len(s))))
Octal == {"0", "1", "2", "3", "4", "5", "6", "7"}
IsOct(s) == s # "" /\ \A i \in 1..Len(s) : Char(s, i) \in Octal
DecVal(s) == FoldLeft(LAMBDA a, i : a * 10 + DigitVal[Char(s, i)], 0, [i \in 1..Len(s) |-> i])
OctVal(s) == FoldLeft(LAMBDA a, i : a * 8 + DigitVal[Char(s, i)], 0, [i \in 1..Len(s) |-> i])
Small(s) == AllDigits(s) /\ Len(StripZeros(s)) <= 9
PermsOK(v) == LET w == SplitAt(v, ":") IN Len(w) = 3 /\ IsDec(w[1]) /\ IsDec(w[2]) /\ IsOct(w[3])
\* values the judge can represent
PermsKnown(v) == LET w == SplitAt(v, ":") IN PermsOK(v) /\ Small(w[1]) /\ Small(w[2]) /\ Len(w[3]) <= 7
\* the reader: state [pk, files, dir: components, hasdir, hasfile, any, out, ok, named]
D0 == [pk |-> DEmpty, files |-> <<>>, dir |-> <<>>, hasdir |-> FALSE, hasfile |-> FALSE, nd |-> 0, any |-> FALSE, out |-> <<>>, ok |-> TRUE]
DFlush(st) == IF ~st.any THEN st ELSE [D0 EXCEPT !.out = Append(st.out, [pk |-> st.pk, files |-> st.files]), !.ok = st.ok /\ st.pk.name # ""]
SetPerm(h, v) == LET w == SplitAt(v, ":") IN [h EXCEPT !.uid = DecVal(w[1]), !.gid = DecVal(w[2]), !.perm = OctVal(w[3])]
DStep(st, l) ==
  IF l = "" THEN DFlush(st)
  ELSE IF ~(Len(l) >= 2 /\ Char(l, 2) = ":") THEN [st EXCEPT !.ok = FALSE, !.any = TRUE]
  ELSE LET g == Tag(l)  v == Val(l)  s == [st EXCEPT !.any = TRUE] IN
    CASE g = "F" -> IF Comps(v) = <<>> THEN [s EXCEPT !.dir = <<>>, !.hasdir = TRUE, !.hasfile = FALSE, !.nd = 0]
                    ELSE [s EXCEPT !.dir = Comps(v), !.hasdir = TRUE, !.hasfile = FALSE, !.nd = Len(s.files) + 1,
                                   !.files = Append(s.files, [p |-> Comps(v), d |-> TRUE, uid |-> 0, gid |-> 0, perm |-> 493])]
      [] g = "R" -> [s EXCEPT !.hasfile = TRUE, !.files = Append(s.files, [p |-> s.dir \o Comps(v), d |-> FALSE, uid |-> 0, gid |-> 0, perm |-> 420])]
      [] g = "M" -> IF ~s.hasdir \/ ~PermsKnown(v) THEN [s EXCEPT !.ok = FALSE] ELSE IF s.nd = 0 THEN s ELSE [s EXCEPT !.files[s.nd] = SetPerm(s.files[s.nd], v)]
      [] g = "a" -> IF ~s.hasfile \/ ~PermsKnown(v) THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.files[Len(s.files)] = SetPerm(s.files[Len(s.files)], v)]
      [] g = "r" -> [s EXCEPT !.pk.repl = SelectSeq(Words(v), LAMBDA x : x # "")]
      [] g \in DOMAIN ListField -> [s EXCEPT !.pk[ListField[g]] = SelectSeq(Words(v), LAMBDA x : x # "")]
      [] g \notin DOMAIN ListField \cup {"F", "R", "M", "a", "r"} -> IF LineOK(l) THEN [s EXCEPT !.pk = Apply(s.pk, l)] ELSE [s EXCEPT !.ok = FALSE]
DRead(lines) == DFlush(FoldLeft(LAMBDA st, l : DStep(st, l), D0, lines))

\* what is to be recorded for headers hs: the last header of each name; the root is no entry
HNames(hs) == {hs[i].p : i \in 1..Len(hs)} \ {<<>>}
HLast(hs, q) == hs[Max({i \in 1..Len(hs) : hs[i].p = q})]
Recorded(hs) == {HLast(hs, q) : q \in HNames(hs)}
AllProper(q) == {SubSeq(q, 1, n) : n \in 1..Len(q) - 1}
\* directories that hold entries but have no header of their own
Implied(hs) == {[p |-> q, d |-> TRUE, uid |-> 0, gid |-> 0, perm |-> 493] : q \in (UNION {AllProper(x) : x \in HNames(hs)}) \ HNames(hs)}
\* files read back for headers hs
FilesOK(hs, got) == LET G == ToSet(got) IN
  Cardinality(G) = Len(got) /\ Recorded(hs) \subseteq G /\ G \subseteq Recorded(hs) \cup Implied(hs)
\* the writer
PathOf(q) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN q[i] ELSE acc \o "/" \o q[i], "", [i \in 1..Len(q) |-> i])
OctDigit == <<"0", "1", "2", "3", "4", "5", "6", "7">>
OctStr(n) == OctDigit[((n \div 512) % 8) + 1] \o OctDigit[((n \div 64) % 8) + 1] \o OctDigit[((n \div 8) % 8) + 1] \o OctDigit[(n % 8) + 1]
PermStr(h) == ToString(h.uid) \o ":" \o ToString(h.gid) \o ":" \o OctStr(IF DVariant = "lowbits" THEN h.perm % 512 ELSE h.perm)
PermLine(tag, h, def) == IF h.uid = 0 /\ h.gid = 0 /\ h.perm = def THEN <<>> ELSE <<tag \o ":" \o PermStr(h)>>
DirsOf(hs) == {h.p : h \in {x \in Recorded(hs) \cup Implied(hs) : x.d}}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
FilesIn(hs, q) == {h \in Recorded(hs) : ~h.d /\ SubSeq(h.p, 1, Len(h.p) - 1) = q}
FileLines(hs, q) == Concat([i \in 1..Cardinality(FilesIn(hs, q)) |-> LET h == SetToSeq(FilesIn(hs, q))[i] IN <<"R:" \o h.p[Len(h.p)]>> \o PermLine("a", h, 420)])
DirLines(hs, q) == LET h == CHOOSE x \in Recorded(hs) \cup Implied(hs) : x.p = q IN <<"F:" \o PathOf(q)>> \o PermLine("M", h, 493) \o FileLines(hs, q)
DirSeq(hs) == SetToSeq(DirsOf(hs))
WriteFiles(hs) ==
  (IF FilesIn(hs, <<>>) = {} \/ DVariant = "noroot" THEN <<>> ELSE <<"F:">> \o FileLines(hs, <<>>))
  \o Concat([i \in 1..Len(DirSeq(hs)) |-> DirLines(hs, DirSeq(hs)[i])])
WriteDb(pk, hs) == SubSeq(WritePkg(pk), 1, Len(WritePkg(pk)) - 1) \o Opt("r", JoinW(pk.repl)) \o WriteFiles(hs) \o <<"">>
=============================================================================
