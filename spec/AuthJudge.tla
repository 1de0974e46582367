------------------------------ MODULE AuthJudge -----------------------------
EXTENDS Judge, Auth
ReqOK(r, q) == q.t \in 1..Len(r.targets) /\ q.k \in 1..Len(r.targets[q.t]) /\ (q.cred \in Acceptable(r.cfg, r.targets[q.t], q.k)
  \/ (q.cred = "none" /\ r.loop[q.t] /\ q.k = Len(r.targets[q.t])))   \* redirected to itself, without credentials in the URL
JBad(r) == (IF \A i \in 1..Len(r.reqs) : ReqOK(r, r.reqs[i]) THEN {} ELSE {"credentials"})
  \cup (IF r.errleak THEN {"password-in-error"} ELSE {}) \cup (IF r.diskleak THEN {"password-in-cache"} ELSE {}) \cup (IF r.hdrleak THEN {"password-elsewhere"} ELSE {})
  \cup (IF r.mustok /\ r.err THEN {"error"} ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
