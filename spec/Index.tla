------------------------------- MODULE Index -------------------------------
(* The text form of a repository index: one block of "X:value" lines per    *)
(* package, blocks ended by an empty line.  A package is a record of        *)
(* strings and word lists; numbers are digit strings ("0" if absent).       *)
EXTENDS Strings, FiniteSets
MaxU64 == "18446744073709551615"
MaxI64 == "9223372036854775807"
Words(s) == IF s = "" THEN <<>>
            ELSE LET Sp == {i \in 1..Len(s) : Char(s, i) = " "}
                     Bd == SetToSortSeq(Sp \cup {0, Len(s) + 1}, <)
                 IN [k \in 1..(Len(Bd) - 1) |-> SubSeq(s, Bd[k] + 1, Bd[k+1] - 1)]
RECURSIVE JoinW(_)
JoinW(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o JoinW(Tail(ws))
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : IsDigit(Char(s, i))
NormNum(s) == IF StripZeros(s) = "" THEN "0" ELSE StripZeros(s)
U64(s) == AllDigits(s) /\ CmpNum(s, MaxU64) <= 0
I64(s) == \/ AllDigits(s) /\ CmpNum(s, MaxI64) <= 0
          \/ Len(s) > 1 /\ Char(s, 1) = "-" /\ AllDigits(SubSeq(s, 2, Len(s))) /\ CmpNum(SubSeq(s, 2, Len(s)), MaxI64) <= 0
NormI(s) == IF Char(s, 1) = "-" THEN LET q == NormNum(SubSeq(s, 2, Len(s))) IN IF q = "0" THEN "0" ELSE "-" \o q ELSE NormNum(s)

Empty == [name |-> "", ver |-> "", arch |-> "", desc |-> "", lic |-> "", org |-> "", maint |-> "", url |-> "", sum |-> "",
          deps |-> <<>>, prov |-> <<>>, iif |-> <<>>, size |-> "0", isize |-> "0", prio |-> "0", t |-> "", commit |-> ""]
StrField == [P |-> "name", V |-> "ver", A |-> "arch", T |-> "desc", L |-> "lic", o |-> "org", m |-> "maint", U |-> "url", c |-> "commit"]
ListField == [D |-> "deps", p |-> "prov", i |-> "iif"]
NumField == [S |-> "size", I |-> "isize", k |-> "prio"]
Tag(l) == Char(l, 1)
Val(l) == SubSeq(l, 3, Len(l))
\* a line other than the empty one
LineOK(l) ==
  /\ Len(l) >= 2 /\ Char(l, 2) = ":"
  /\ Tag(l) \in DOMAIN NumField => U64(Val(l))
  /\ Tag(l) = "t" => I64(Val(l))
  /\ (Tag(l) = "C" /\ HasPrefixAt(l, 3, "Q1")) => Pos("!", l) = 0    \* (generators spoil base64 with "!")
Apply(pk, l) ==
  LET g == Tag(l) IN
  IF g \in DOMAIN StrField THEN [pk EXCEPT ![StrField[g]] = Val(l)]
  ELSE IF g \in DOMAIN ListField THEN [pk EXCEPT ![ListField[g]] = Words(Val(l))]
  ELSE IF g \in DOMAIN NumField THEN [pk EXCEPT ![NumField[g]] = NormNum(Val(l))]
  ELSE IF g = "t" THEN [pk EXCEPT !.t = NormI(Val(l))]
  ELSE IF g = "C" /\ HasPrefixAt(l, 3, "Q1") THEN [pk EXCEPT !.sum = IF Val(l) = "Q1" THEN "" ELSE Val(l)]
  ELSE pk
\* the reader as a machine over lines: state [pk, out, ok]
R0 == [pk |-> Empty, out |-> <<>>, ok |-> TRUE]
Flush(st) == [st EXCEPT !.pk = Empty, !.out = IF st.pk.name # "" THEN Append(st.out, st.pk) ELSE st.out]
RStep(st, l) == IF l = "" THEN Flush(st)
                ELSE IF LineOK(l) THEN [st EXCEPT !.pk = Apply(st.pk, l)] ELSE [st EXCEPT !.ok = FALSE]
Read(lines) == Flush(FoldLeft(LAMBDA st, l : RStep(st, l), R0, lines))
\* the names of the packages present in the text, malformed lines or not
NStep(st, l) == IF l = "" THEN Flush(st) ELSE IF Len(l) >= 2 /\ Char(l, 1) = "P" /\ Char(l, 2) = ":" THEN [st EXCEPT !.pk.name = Val(l)] ELSE st
NamesIn(lines) == LET o == Flush(FoldLeft(LAMBDA st, l : NStep(st, l), R0, lines)).out IN [k \in 1..Len(o) |-> o[k].name]

\* the writer
Opt(tag, v) == IF v = "" THEN <<>> ELSE <<tag \o ":" \o v>>
OptN(tag, v) == IF v = "0" THEN <<>> ELSE <<tag \o ":" \o v>>
WritePkg(pk) ==
  <<"C:" \o (IF pk.sum = "" THEN "Q1" ELSE pk.sum), "P:" \o pk.name, "V:" \o pk.ver>> \o Opt("A", pk.arch) \o OptN("S", pk.size) \o OptN("I", pk.isize)
  \o <<"T:" \o pk.desc>> \o Opt("U", pk.url) \o Opt("L", pk.lic) \o Opt("o", pk.org) \o Opt("m", pk.maint) \o Opt("t", pk.t) \o Opt("c", pk.commit)
  \o Opt("D", JoinW(pk.deps)) \o Opt("i", JoinW(pk.iif)) \o Opt("p", JoinW(pk.prov)) \o OptN("k", pk.prio) \o <<"">>
WriteIdx(pks) == FoldLeft(LAMBDA acc, pk : acc \o WritePkg(pk), <<>>, SelectSeq(pks, LAMBDA pk : pk.name # ""))
=============================================================================
