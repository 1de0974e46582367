----------------------------- MODULE RangeRetry ----------------------------
(* A reader of a resource with bytes 1..RN over a connection that fails.    *)
(* Every response is chosen by the environment: full (200, from byte 1),    *)
(* range (206, from the requested byte), wrong (206 from another byte, which *)
(* it declares), short (206 from the requested byte, ends early without an  *)
(* error), stub (200, all of something shorter than what was delivered),    *)
(* refused, status (5xx); and the body may fail after RCut bytes.   *)
(* A Read tries three times and asks each time for the bytes after those    *)
(* already delivered.  RVariant names defective readers which must be found: *)
(* nodiscard (does not skip after a full answer), nocheck (believes any     *)
(* range), noend (believes any end), skipend (an answer without a length     *)
(* that ends while what was delivered is skipped is the end).               *)
EXTENDS Integers, Sequences
CONSTANTS RN, RVariant
VARIABLES rout, rpos, rcut, rshort, ropen, rtry, rwant, rdone, rreq
rvars == <<rout, rpos, rcut, rshort, ropen, rtry, rwant, rdone, rreq>>
Never == RN + 1
Init == rout = <<>> /\ rpos = 1 /\ rcut = Never /\ rshort = Never /\ ropen = FALSE /\ rtry = 0 /\ rwant = 0 /\ rdone = "" /\ rreq = 0
Progress == Len(rout)
\* the first request and the retries
Answer(kind, cut) ==
  /\ rdone = "" /\ ~ropen /\ rreq' = rreq + 1
  /\ IF kind \in {"refused", "status"} \/ (kind = "wrong" /\ RVariant # "nocheck" /\ Progress # 1)
     THEN rdone' = "error" /\ UNCHANGED <<rout, rpos, rcut, rshort, ropen, rtry, rwant>>
     ELSE IF kind = "stub" /\ Progress > 0
     THEN rdone' = (IF RVariant = "skipend" THEN "eof" ELSE "error") /\ UNCHANGED <<rout, rpos, rcut, rshort, ropen, rtry, rwant>>
     ELSE LET start == CASE kind = "full" -> 1 [] kind = "wrong" -> 2 [] OTHER -> Progress + 1
              skip == IF kind = "full" /\ RVariant # "nodiscard" THEN Progress ELSE 0
          IN IF cut < skip THEN rdone' = "error" /\ UNCHANGED <<rout, rpos, rcut, rshort, ropen, rtry, rwant>>
             ELSE /\ rpos' = start + skip /\ rcut' = start + cut /\ rshort' = IF kind = "short" THEN start + 1 ELSE Never
                  /\ ropen' = TRUE /\ UNCHANGED <<rout, rtry, rwant, rdone>>
First == rreq = 0 /\ \E cut \in 0..Never : Answer("full", cut)
Retry == rreq > 0 /\ \E kind \in {"full", "range", "wrong", "short", "stub", "refused", "status"}, cut \in 0..Never : Answer(kind, cut)
Read(n) == rdone = "" /\ ropen /\ rwant = 0 /\ rwant' = n /\ rtry' = 0 /\ UNCHANGED <<rout, rpos, rcut, rshort, ropen, rdone, rreq>>
\* the body gives up to k bytes
Get(k) == /\ rdone = "" /\ ropen /\ rwant >= k /\ k >= 1 /\ rpos + k <= rcut /\ rpos + k <= rshort /\ rpos + k <= RN + 1
          /\ rout' = rout \o [i \in 1..k |-> rpos + i - 1] /\ rpos' = rpos + k /\ rwant' = 0 /\ UNCHANGED <<rcut, rshort, ropen, rtry, rdone, rreq>>
Failed == /\ rtry' = rtry + 1 /\ IF rtry = 2 THEN rdone' = "error" /\ UNCHANGED ropen ELSE ropen' = FALSE /\ UNCHANGED rdone
          /\ UNCHANGED <<rout, rpos, rcut, rshort, rwant, rreq>>
Fail == rdone = "" /\ ropen /\ rwant > 0 /\ rpos >= rcut /\ rpos <= RN /\ Failed
End == /\ rdone = "" /\ ropen /\ rwant > 0 /\ (rpos > RN \/ rpos >= rshort) /\ ~(rpos >= rcut /\ rpos <= RN)
       /\ IF Progress < RN /\ RVariant # "noend" THEN Failed ELSE rdone' = "eof" /\ UNCHANGED <<rout, rpos, rcut, rshort, ropen, rtry, rwant, rreq>>
Next == First \/ Retry \/ (\E n \in 1..2 : Read(n)) \/ (\E k \in 1..2 : Get(k)) \/ Fail \/ End
Prefix == \A i \in 1..Len(rout) : rout[i] = i
CleanEnd == rdone = "eof" => Len(rout) = RN
Bounded == rreq <= 1 + 2 * (RN + 1)
Ends == <>(rdone # "")
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
=============================================================================
