---- MODULE Pkginfo ----
(* The .PKGINFO of a package: comments and lines "key = value". A value is the rest of its line without white space *)
(* around it, whatever characters it has. Some keys are lists, of one or more words per line, in order; of a repeated *)
(* key that is no list the first counts. Numbers are decimal and must fit.                                           *)
EXTENDS Strings, FiniteSets
CONSTANTS PVariant
PTextKeys == {"pkgname", "pkgver", "arch", "pkgdesc", "license", "origin", "maintainer", "url", "commit", "datahash"}
PListKeys == {"depend", "provides", "replaces", "install_if"}
PNumKeys == {"size", "provider_priority", "builddate"}
PMax(key) == IF key = "builddate" THEN "9223372036854775807" ELSE "18446744073709551615"
PSpace(c) == c \in {" ", "\t", "\r"}
PTrim(s) == LET S == {i \in 1..Len(s) : ~PSpace(Char(s, i))} IN IF S = {} THEN "" ELSE SubSeq(s, MinOf(S), CHOOSE x \in S : \A y \in S : x >= y)
PWords(s) == FoldLeft(LAMBDA a, i : IF PSpace(Char(s, i)) THEN [a EXCEPT !.n = TRUE] ELSE [q |-> IF a.n THEN Append(a.q, Char(s, i)) ELSE [a.q EXCEPT ![Len(a.q)] = @ \o Char(s, i)], n |-> FALSE],
                      [q |-> <<>>, n |-> TRUE], [i \in 1..Len(s) |-> i]).q
PEmpty == [ok |-> TRUE, odd |-> FALSE, text |-> [k \in PTextKeys |-> ""], list |-> [k \in PListKeys |-> <<>>], num |-> [k \in PNumKeys |-> "0"], seen |-> {}, hold |-> ""]
PAllDigits(s) == s # "" /\ \A i \in 1..Len(s) : IsDigit(Char(s, i))
PValue(v) ==
  IF PVariant = "inline" THEN (LET S == {i \in 1..Len(v) : Char(v, i) \in {"#", ";"}} IN IF S = {} THEN v ELSE PTrim(IF MinOf(S) = 1 THEN "" ELSE SubSeq(v, 1, MinOf(S) - 1)))
  ELSE IF PVariant = "quotes" /\ Len(v) >= 2 /\ Char(v, 1) = "\"" /\ Char(v, Len(v)) = "\"" THEN (IF Len(v) = 2 THEN "" ELSE SubSeq(v, 2, Len(v) - 1))
  ELSE v
PNum(s) == LET d == StripZeros(s) IN IF d = "" THEN "0" ELSE d
PLine(st, l0) ==
  LET l == st.hold \o l0  e == Pos("=", l) IN
  IF PVariant = "cont" /\ l # "" /\ Char(l, Len(l)) = "\\" THEN [st EXCEPT !.hold = IF Len(l) = 1 THEN "" ELSE SubSeq(l, 1, Len(l) - 1)] ELSE
  LET s == [st EXCEPT !.hold = ""] IN
  IF e = 0 \/ StartsWith(l, "#") THEN s ELSE
  LET key == IF e = 1 THEN "" ELSE PTrim(SubSeq(l, 1, e - 1))
      v == PValue(IF e = Len(l) THEN "" ELSE PTrim(SubSeq(l, e + 1, Len(l)))) IN
  IF key \in PListKeys THEN
    (LET w == PWords(v)  q == s.list[key] \o (IF PVariant = "dups" THEN SelectSeq(w, LAMBDA x : \A i \in DOMAIN s.list[key] : s.list[key][i] # x) ELSE w) IN
     [s EXCEPT !.list = [@ EXCEPT ![key] = q]])
  ELSE IF key \in s.seen THEN s
  ELSE IF key \in PTextKeys THEN [s EXCEPT !.text = [@ EXCEPT ![key] = v], !.seen = @ \cup {key}]
  ELSE IF key \in PNumKeys THEN
    (LET t == [s EXCEPT !.seen = @ \cup {key}] IN
     IF v = "" THEN t
     ELSE IF ~PAllDigits(v) THEN [t EXCEPT !.odd = TRUE]
     ELSE IF CmpNum(v, PMax(key)) > 0 THEN [t EXCEPT !.ok = FALSE]
     ELSE [t EXCEPT !.num = [@ EXCEPT ![key] = PNum(v)]])
  ELSE s
PRead(lines) == FoldLeft(PLine, PEmpty, lines)
====
