---- MODULE PkginfoJudge ----
(* Judges what the real code read from the lines of a .PKGINFO: through its parser, and from the installed database. *)
EXTENDS Pkginfo, Judge
PExpect(g, w, db) ==
  {k \in (PTextKeys \ (IF db THEN {"datahash"} ELSE {})) : g.text[k] # w.text[k]} \cup {k \in PListKeys : g.list[k] # w.list[k]} \cup {k \in PNumKeys : g.num[k] # w.num[k] /\ ~w.odd}
JBad(r) == LET w == PRead(r.lines) IN
     (IF ~w.ok /\ r.ok THEN {"number that does not fit accepted"} ELSE {})
  \cup (IF w.ok /\ ~w.odd /\ ~r.ok THEN {"refused"} ELSE {})
  \cup (IF r.ok /\ w.ok THEN {"read differently: " \o k : k \in PExpect(r.got, w, FALSE)} ELSE {})
  \cup (IF r.inst /\ w.ok /\ ~w.odd THEN (IF r.iok THEN {"recorded differently: " \o k : k \in PExpect(r.igot, w, TRUE)} ELSE {"not installed"}) ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
====
