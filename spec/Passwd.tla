------------------------------- MODULE Passwd -------------------------------
(* /etc/passwd and /etc/group: lines of ":"-separated fields.  An entry is  *)
(* the sequence of its fields; ids are digit strings without leading zeros, *)
(* the member list of a group is a sequence.                                *)
EXTENDS Strings, FiniteSets
MaxU32 == "4294967295"
SplitOn(s, sep) == LET Bd == SetToSortSeq({i \in 1..Len(s) : Char(s, i) = sep} \cup {0, Len(s) + 1}, <)
                   IN [k \in 1..(Len(Bd) - 1) |-> SubSeq(s, Bd[k] + 1, Bd[k+1] - 1)]
RECURSIVE JoinOn(_, _)
JoinOn(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o JoinOn(Tail(ws), sep)
IdOK(s) == s # "" /\ (\A i \in 1..Len(s) : IsDigit(Char(s, i))) /\ CmpNum(s, MaxU32) <= 0
NormId(s) == IF StripZeros(s) = "" THEN "0" ELSE StripZeros(s)
LineOKP(f) == Len(f) = 7 /\ IdOK(f[3]) /\ IdOK(f[4])
LineOKG(f) == Len(f) = 4 /\ IdOK(f[3])
EntryP(f) == [name |-> f[1], pw |-> f[2], uid |-> NormId(f[3]), gid |-> NormId(f[4]), info |-> f[5], home |-> f[6], shell |-> f[7]]
EntryG(f) == [name |-> f[1], pw |-> f[2], gid |-> NormId(f[3]), members |-> IF f[4] = "" THEN <<>> ELSE SplitOn(f[4], ",")]
OKLine(g, l) == IF g THEN LineOKG(SplitOn(l, ":")) ELSE LineOKP(SplitOn(l, ":"))
Entry(g, l) == IF g THEN EntryG(SplitOn(l, ":")) ELSE EntryP(SplitOn(l, ":"))
FileOK(g, lines) == \A k \in 1..Len(lines) : OKLine(g, lines[k])
Entries(g, lines) == [k \in 1..Len(lines) |-> Entry(g, lines[k])]
Line(g, e) == IF g THEN JoinOn(<<e.name, e.pw, e.gid, JoinOn(e.members, ",")>>, ":")
              ELSE JoinOn(<<e.name, e.pw, e.uid, e.gid, e.info, e.home, e.shell>>, ":")
Lines(g, es) == [k \in 1..Len(es) |-> Line(g, es[k])]
\* edits of the entries: append an entry, replace entry i, delete entry i
EditE(es, o) == CASE o.op = "append" -> Append(es, o.e)
                  [] o.op = "set" -> [es EXCEPT ![o.i] = o.e]
                  [] o.op = "del" -> SubSeq(es, 1, o.i - 1) \o SubSeq(es, o.i + 1, Len(es))
=============================================================================
