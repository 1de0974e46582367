----------------------------- MODULE SignJudge -----------------------------
(* Observations of the real SignIndex against the file contents SignIndex.tla *)
(* allows: "old", "new" (one signature section by key r.key over the old      *)
(* bytes, verified independently) or anything else ("part").                  *)
EXTENDS Judge
JBad(r) ==
  LET faulty == r.fault # "none"
      bad == {"nokey", "badpem", "pubpem", "encrypted"}
  IN IF r.fault = "signed"
     THEN (IF r.err = "" /\ r.state = "old" THEN {} ELSE {"signed-again"})
     ELSE (IF r.state \in {"old", "new"} THEN {} ELSE {"damaged"})
          \cup (IF r.died = "" /\ r.err = "" /\ r.state # "new" THEN {"not-signed"} ELSE {})
          \cup (IF r.fault \in bad /\ (r.err = "" \/ r.state # "old") THEN {"bad-key-accepted"} ELSE {})
          \cup (IF ~faulty /\ (r.err # "" \/ r.died # "") THEN {"sign-fails"} ELSE {})
          \cup (IF r.state = "new" /\ ToSet(r.validBy) # {r.key} THEN {"signature"} ELSE {})
          \cup (IF r.state = "new" /\ r.fault # "corrupt" /\ (ToSet(r.loadsWith) # {r.key} \/ ~r.sameIndex) THEN {"load"} ELSE {})
          \cup (IF r.sameMode /\ r.sameLink THEN {} ELSE {"file-attributes"})
          \* once more, without faults: signed by the first successful signer, otherwise by the second
          \cup (IF r.fault \in {"corrupt"} \/ (r.again.err = "" /\ r.again.state = (IF r.state = "new" THEN "same" ELSE "new")) THEN {} ELSE {"second-signing"})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
