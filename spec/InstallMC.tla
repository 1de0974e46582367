----------------------------- MODULE InstallMC ------------------------------
(* The protocol: packages are fetched concurrently, started in list order,  *)
(* at most ILimit goroutines at a time, and installed one at a time in list *)
(* order by a goroutine that waits for each; the database is written after  *)
(* all have succeeded.  IVariant selects the code's protocol ("ok") or a    *)
(* defective one.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS IPkgs, ILimit, IVariant
VARIABLES fst,      \* package -> "todo" | "run" | "ok" | "bad"
          spawned,  \* how many fetches have been started
          insPos,   \* next package to install
          insSeq,   \* what was installed
          insEnd,   \* the installer has ended: "" | "ok" | "err"
          stop,     \* the context is cancelled
          dbSeq, ret, failing, clash
mcvars == <<fst, spawned, insPos, insSeq, insEnd, stop, dbSeq, ret, failing, clash>>
Nk == 1..IPkgs
MInit == /\ failing \in SUBSET Nk /\ clash \in SUBSET Nk
         /\ fst = [i \in Nk |-> "todo"] /\ spawned = 0 /\ insPos = 1 /\ insSeq = <<>> /\ insEnd = "" /\ stop = FALSE /\ dbSeq = <<>> /\ ret = ""
Running == Cardinality({i \in Nk : fst[i] = "run"}) + (IF insEnd = "" THEN 1 ELSE 0)
Spawn == /\ spawned < IPkgs /\ Running < ILimit
         /\ spawned' = spawned + 1 /\ fst' = [fst EXCEPT ![spawned + 1] = "run"]
         /\ UNCHANGED <<insPos, insSeq, insEnd, stop, dbSeq, ret, failing, clash>>
Fetched(i) == /\ fst[i] = "run"
              /\ \/ i \notin failing /\ ~stop /\ fst' = [fst EXCEPT ![i] = "ok"] /\ UNCHANGED stop
                 \/ (i \in failing \/ stop) /\ fst' = [fst EXCEPT ![i] = "bad"] /\ stop' = TRUE
                 \* a fetch may also succeed although the others are being cancelled
                 \/ i \notin failing /\ stop /\ fst' = [fst EXCEPT ![i] = "ok"] /\ UNCHANGED stop
              /\ UNCHANGED <<spawned, insPos, insSeq, insEnd, dbSeq, ret, failing, clash>>
\* which package the installer takes next
Next1 == IF IVariant = "anyorder" THEN {i \in Nk : fst[i] = "ok" /\ \A k \in 1..Len(insSeq) : insSeq[k] # i} ELSE {i \in {insPos} : i <= IPkgs /\ fst[i] = "ok"}
Install == /\ insEnd = "" /\ \E i \in Next1 :
              IF i \in clash THEN insEnd' = "err" /\ stop' = TRUE /\ UNCHANGED <<insSeq, insPos, dbSeq>>
              ELSE /\ insSeq' = Append(insSeq, i) /\ insPos' = insPos + 1 /\ UNCHANGED <<insEnd, stop>>
                   /\ dbSeq' = IF IVariant = "dbearly" THEN Append(dbSeq, i) ELSE dbSeq
           /\ UNCHANGED <<fst, spawned, ret, failing, clash>>
InstallerEnds == /\ insEnd = "" /\ (Len(insSeq) = IPkgs \/ (stop /\ IVariant # "nostop"))
                 /\ insEnd' = IF Len(insSeq) = IPkgs THEN "ok" ELSE "err"
                 /\ UNCHANGED <<fst, spawned, insPos, insSeq, stop, dbSeq, ret, failing, clash>>
AllEnded == spawned = IPkgs /\ insEnd # "" /\ \A i \in Nk : fst[i] \in {"ok", "bad"}
Return == /\ ret = "" /\ AllEnded
          /\ IF insEnd = "ok" /\ \A i \in Nk : fst[i] = "ok" THEN ret' = "ok" /\ dbSeq' = (IF IVariant = "dbearly" THEN dbSeq ELSE insSeq) ELSE ret' = "err" /\ UNCHANGED dbSeq
          /\ UNCHANGED <<fst, spawned, insPos, insSeq, insEnd, stop, failing, clash>>
MNext == Spawn \/ (\E i \in Nk : Fetched(i)) \/ Install \/ InstallerEnds \/ Return
MSpec == MInit /\ [][MNext]_mcvars /\ WF_mcvars(MNext)
InOrder == \A k \in 1..Len(insSeq) : insSeq[k] = k
NothingAhead == \A k \in 1..Len(insSeq) : \A j \in 1..k : j \notin clash /\ j \notin failing
Outcome == ret # "" => (ret = "ok" <=> failing = {} /\ clash = {})
DbExact == dbSeq = IF ret = "ok" THEN [k \in Nk |-> k] ELSE <<>>
Ends == <>(ret # "")
=============================================================================
