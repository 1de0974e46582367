------------------------------- MODULE Expand ------------------------------
(* A package archive as the cells a reader of it meets: every section is    *)
(* made of compressed members, every member of a header, a body and an end  *)
(* (which carries a checksum).  Signature and control section are one       *)
(* member each, the data section is everything that follows.  The control   *)
(* section of variant c declares the data of variant Decl[c] (0: nothing).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Member(s, id) == <<[k |-> "h", s |-> s, id |-> id, ok |-> TRUE], [k |-> "b", s |-> s, id |-> id, ok |-> TRUE], [k |-> "e", s |-> s, id |-> id, ok |-> TRUE]>>
Junk == [k |-> "junk", s |-> "dat", id |-> 0, ok |-> TRUE]
\* members of a package: signed or not, variant of control and data, members of data
Whole(sgn, c, d, nd) == (IF sgn THEN <<Member("sig", 0)>> ELSE <<>>) \o <<Member("ctl", c)>> \o [i \in 1..nd |-> Member("dat", d)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
DropAt(ss, i) == SubSeq(ss, 1, i - 1) \o SubSeq(ss, i + 1, Len(ss))
\* what is done to it: the cells that are served
Edited(ms, ed) ==
  LET all == Cat(ms) IN
  CASE ed.k = "none" -> all
    [] ed.k = "cut" -> SubSeq(all, 1, ed.i - 1)             \* ends before (the end of) cell i
    [] ed.k = "bad" -> [all EXCEPT ![ed.i].ok = FALSE]
    [] ed.k = "junk" -> Append(all, Junk)
    [] ed.k = "drop" -> Cat(DropAt(ms, ed.i))
    [] ed.k = "dup" -> Cat(SubSeq(ms, 1, ed.i) \o SubSeq(ms, ed.i, Len(ms)))
Edits(ms) == {[k |-> "none", i |-> 0], [k |-> "junk", i |-> 0]} \cup {[k |-> x, i |-> i] : x \in {"cut", "bad"}, i \in 1..(3 * Len(ms))} \cup {[k |-> x, i |-> i] : x \in {"drop", "dup"}, i \in 1..Len(ms)}
\* which installations may succeed: judged from what was served, see ExpandMC for the reader
Goods(served) == served.valid /\ served.ctlmatch /\ served.datmatch
=============================================================================
