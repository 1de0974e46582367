----------------------------- MODULE ExpandJudge ---------------------------
(* Each record is one consumer of one served archive (kind) or a history of *)
(* installations of one package (kind "install").  The facts were computed  *)
(* from the bytes by an independent reader.                                 *)
EXTENDS Judge, Expand
\* expansion: valid = the bytes are a package; wrong = facts the result got wrong
One(r) ==
  (IF r.ok /\ ~r.valid THEN {"accepted"} ELSE {}) \cup (IF ~r.ok /\ r.must THEN {"refused"} ELSE {})
  \cup (IF r.ok THEN {"wrong " \o r.wrong[i] : i \in 1..Len(r.wrong)} ELSE {}) \cup (IF r.left > 0 THEN {"left behind"} ELSE {})
\* the promised package was served whole by attempt i, or by an earlier one into the cache
Known(r, i) == \E j \in 1..i : Goods(r.steps[j].served) /\ (j = i \/ r.cached)
StepBad(r, i) == LET s == r.steps[i] IN
  (IF s.ok /\ ~Known(r, i) THEN {"installed"} ELSE {})
  \cup (IF ~s.ok /\ Goods(s.served) /\ s.served.must THEN {"refused"} ELSE {})
  \cup (IF s.ok /\ ~(\E j \in 1..i : Goods(r.steps[j].served) /\ r.steps[j].served.data = s.data /\ r.steps[j].served.sum = s.sum) THEN {"contents"} ELSE {})
  \cup (IF ~s.ok /\ s.traces THEN {"traces of a package that failed"} ELSE {})
JBad(r) == IF r.kind = "install" THEN UNION {StepBad(r, i) : i \in 1..Len(r.steps)} ELSE One(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
