---- MODULE PkgCacheJudge ----
(* Histories of runs of the real code over shared cache directories. The state is what PkgCache calls kept: the packages *)
(* a finished run left in a directory. A step removes files from some directories (clean: those that lost something that *)
(* cannot be made again) and then has runs beside each other. A run: up = the origin is there and serves what the index *)
(* promises; fault = it was killed, its writes failed, or it was cancelled; want = its packages; found = those of them that *)
(* can be found in a cache at all; same = it gave what an installation without a cache gives. *)
EXTENDS Judge
RunBad(r, k) ==
     (IF r.hang THEN {"hang"} ELSE {})
  \cup (IF r.ok /\ ~r.same THEN {"other contents"} ELSE {})
  \cup (IF ~r.ok /\ ~r.fault /\ r.up THEN {"fails although the origin is there"} ELSE {})
  \cup (IF ~r.ok /\ ~r.fault /\ ~r.up /\ (\A i \in DOMAIN r.want : <<r.dir, r.want[i]>> \in k) THEN {"cached but not installed"} ELSE {})
Left(k, s) == {x \in k : \A i \in DOMAIN s.clean : s.clean[i] # x[1]}
After(k, s) == Left(k, s) \cup UNION {IF r.ok /\ ~r.fault THEN {<<r.dir, r.found[i]>> : i \in DOMAIN r.found} ELSE {} : r \in {s.runs[i] : i \in DOMAIN s.runs}}
RECURSIVE Steps(_, _, _)
Steps(ss, n, k) == IF n > Len(ss) THEN {} ELSE
  UNION {RunBad(ss[n].runs[i], Left(k, ss[n])) : i \in DOMAIN ss[n].runs} \cup Steps(ss, n + 1, After(k, ss[n]))
JBad(c) == Steps(c.steps, 1, {})
JInv == JReport(ji, JBad(Recs[ji]))
====
