----------------------------- MODULE RangeJudge ----------------------------
(* One download by the real code.  r.reqs: the requests with the number of  *)
(* bytes delivered before each ("at"), the Range asked for ("from", 0 none) *)
(* and how the server answered; r.reads: results of the Reads (n, end),     *)
(* prefix: everything delivered equals the resource there.                  *)
EXTENDS Judge
Served(q) == q.kind \in {"full", "range", "short"}
\* the download had to be given up: refused, an error status, a wrong range, a failure while skipping
\* what was delivered before, or three failing attempts at the same place
Excused(r) ==
  \/ \E q \in ToSet(r.reqs) : q.kind \in {"refused", "status", "wrong", "stub"} \/ (q.kind = "full" /\ q.cut < q.at)
  \/ LET p == r.reqs[Len(r.reqs)].at IN Cardinality({k \in 1..Len(r.reqs) : r.reqs[k].at = p}) >= (IF p = 0 THEN 3 ELSE 2)
JBad(r) ==
  (IF r.prefix THEN {} ELSE {"wrong-bytes"})
  \cup (IF r.end = "eof" /\ r.total # r.size THEN {"clean-end-too-early"} ELSE {})
  \cup (IF r.end = "error" /\ ~r.cancelled /\ ~Excused(r) THEN {"not-retried"} ELSE {})
  \cup (IF Len(r.reqs) <= 1 + 2 * r.nreads THEN {} ELSE {"too-many-requests"})
  \cup (IF \A k \in 1..Len(r.reqs) : LET q == r.reqs[k] IN IF q.at = 0 THEN q.from \in {0} ELSE q.from = q.at THEN {} ELSE {"wrong-range-requested"})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
