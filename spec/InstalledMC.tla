----------------------------- MODULE InstalledMC ---------------------------
(* Packages recorded one after another, and the database read back.         *)
EXTENDS InstalledDb
CONSTANTS DMax
VARIABLES dtext, dlog
DPs == {<<"f">>, <<"a">>, <<"a", "b">>, <<"a", "c">>, <<"e", "g", "h">>}
Hd(p, d, u, m) == [p |-> p, d |-> d, uid |-> u, gid |-> 0, perm |-> m]
Kind(p) == {Hd(p, TRUE, 0, 493), Hd(p, FALSE, 0, 420), Hd(p, FALSE, 7, 2541)} \cup (IF Len(p) = 1 THEN {Hd(p, TRUE, 3, 1023)} ELSE {})
Below(q, x) == Len(q) < Len(x) /\ SubSeq(x, 1, Len(q)) = q
HSets == {hs \in UNION {{<<>>}, {<<x>> : x \in UNION {Kind(p) : p \in DPs}}, {<<x, y>> : x, y \in UNION {Kind(p) : p \in DPs}}} :
            \A i, j \in 1..Len(hs) : Below(hs[i].p, hs[j].p) => hs[i].d}
PkN(n) == [DEmpty EXCEPT !.name = "p" \o ToString(n), !.ver = "1", !.repl = IF n = 1 THEN <<"x", "y">> ELSE <<>>, !.iif = <<"u">>]
DInit == dtext = <<>> /\ dlog = <<>>
DNext == Len(dlog) < DMax /\ \E hs \in HSets : LET pk == PkN(Len(dlog) + 1) IN dtext' = dtext \o WriteDb(pk, hs) /\ dlog' = Append(dlog, [pk |-> pk, hs |-> hs])
RoundTrip == LET st == DRead(dtext) IN st.ok /\ Len(st.out) = Len(dlog) /\
  \A i \in 1..Len(dlog) : st.out[i].pk = dlog[i].pk /\ FilesOK(dlog[i].hs, st.out[i].files)
\* cutting the text never yields a database that looks complete with a package missing in the middle
CutPrefix == \A n \in 0..Len(dtext) : LET st == DRead(SubSeq(dtext, 1, n)) IN
  \A i \in 1..Len(st.out) - 1 : st.out[i].pk = dlog[i].pk /\ FilesOK(dlog[i].hs, st.out[i].files)
=============================================================================
