---- MODULE PkgCache ----
(* The cache directory of one package URL. A run of version v looks for the files of v: the control section is     *)
(* found by the checksum the index promises, the data section by the hash the control section declares, and the    *)
(* uncompressed data section beside it. What is missing is downloaded into private files and renamed, the control   *)
(* section last; a missing uncompressed data section is made again. Any number of processes do this at a time, and  *)
(* each can die anywhere. Two versions may share their data section.                                               *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS CProcs, CShared, CVariant, CMaxRuns
VARIABLES kfs,   \* file name -> "no", "part" or "full"
          kpr,   \* process -> [pc, v, up, dead]
          kept,  \* versions whose files are all there for certain
          kruns, kbad
cvars == <<kfs, kpr, kept, kruns, kbad>>
CVers == {1, 2}
CDat(v) == IF CShared THEN 1 ELSE v
CNames == ({"ctl", "sig"} \X CVers) \cup ({"dat", "tar"} \X {CDat(v) : v \in CVers})
File(k, v) == IF k \in {"dat", "tar"} THEN <<k, CDat(v)>> ELSE <<k, v>>
Has(k, v) == kfs[File(k, v)]
COrder == CASE CVariant = "ctlfirst" -> <<"ctl", "sig", "dat", "tar">>
            [] CVariant = "siglast" -> <<"dat", "tar", "ctl", "sig">>
            [] OTHER -> <<"sig", "dat", "tar", "ctl">>
CIdle == [pc |-> "idle", v |-> 1, up |-> TRUE, lost |-> FALSE]
CInit == /\ kfs = [n \in CNames |-> "no"] /\ kpr = [p \in CProcs |-> CIdle]
         /\ kept = {} /\ kruns = 0 /\ kbad = {}
Set(p, pc) == kpr' = [kpr EXCEPT ![p].pc = pc]
Start(p) == /\ kpr[p].pc = "idle" /\ kruns < CMaxRuns /\ kruns' = kruns + 1
            /\ \E v \in CVers, up \in BOOLEAN :
                 kpr' = [kpr EXCEPT ![p] = [pc |-> "look", v |-> v, up |-> up, lost |-> v \notin kept]]
            /\ UNCHANGED <<kfs, kept, kbad>>
(* what is there decides *)
Look(p) == /\ kpr[p].pc = "look"
           /\ LET v == kpr[p].v IN
              IF Has("ctl", v) = "full" /\ Has("dat", v) # "no"
              THEN Set(p, IF Has("tar", v) = "no" THEN "regen" ELSE "serve") ELSE Set(p, "fetch")
           /\ UNCHANGED <<kfs, kept, kruns, kbad>>
(* serve: the control section, the signature's size and the uncompressed data are read as they are now *)
Serve(p) == /\ kpr[p].pc = "serve" /\ Set(p, "installed")
            /\ kbad' = kbad \cup {k \in {"ctl", "sig", "dat", "tar"} : Has(k, kpr[p].v) # "full"}
            /\ UNCHANGED <<kfs, kept, kruns>>
Regen(p) == /\ kpr[p].pc = "regen"
            /\ IF CVariant = "inplace"
               THEN kfs' = [kfs EXCEPT ![File("tar", kpr[p].v)] = "part"] /\ Set(p, "regen2") /\ UNCHANGED kbad
               ELSE /\ kfs' = [kfs EXCEPT ![File("tar", kpr[p].v)] = Has("dat", kpr[p].v)] /\ Set(p, "serve") /\ UNCHANGED kbad
            /\ UNCHANGED <<kept, kruns>>
Regen2(p) == /\ kpr[p].pc = "regen2" /\ kfs' = [kfs EXCEPT ![File("tar", kpr[p].v)] = "full"] /\ Set(p, "serve")
             /\ UNCHANGED <<kept, kruns, kbad>>
Fetch(p) == /\ kpr[p].pc = "fetch"
            /\ IF ~kpr[p].up
               THEN Set(p, "failed") /\ UNCHANGED kfs
               ELSE IF CVariant = "direct"     \* into the final names at once
                    THEN kfs' = [n \in CNames |-> IF \E k \in {"ctl", "sig", "dat", "tar"} : n = File(k, kpr[p].v) THEN "part" ELSE kfs[n]] /\ Set(p, "direct2")
                    ELSE Set(p, "ren1") /\ UNCHANGED kfs
            /\ UNCHANGED <<kept, kruns, kbad>>
Direct2(p) == /\ kpr[p].pc = "direct2" /\ Set(p, "installed")
              /\ kfs' = [n \in CNames |-> IF \E k \in {"ctl", "sig", "dat", "tar"} : n = File(k, kpr[p].v) THEN "full" ELSE kfs[n]]
              /\ UNCHANGED <<kept, kruns, kbad>>
Pc(i) == CASE i = 1 -> "ren1" [] i = 2 -> "ren2" [] i = 3 -> "ren3" [] i = 4 -> "ren4" [] OTHER -> "installed"
Rename(p) == \E i \in 1..4 : /\ kpr[p].pc = Pc(i) /\ kfs' = [kfs EXCEPT ![File(COrder[i], kpr[p].v)] = "full"]
                             /\ Set(p, Pc(i + 1)) /\ UNCHANGED <<kept, kruns, kbad>>
Finish(p) == /\ kpr[p].pc = "installed" /\ Set(p, "idle") /\ kept' = kept \cup {kpr[p].v} /\ UNCHANGED <<kfs, kruns, kbad>>
Failed(p) == /\ kpr[p].pc = "failed" /\ Set(p, "idle")
             /\ kbad' = IF kpr[p].lost THEN kbad ELSE kbad \cup {"lost"}
             /\ UNCHANGED <<kfs, kept, kruns>>
Crash(p) == /\ kpr[p].pc # "idle" /\ Set(p, "idle") /\ UNCHANGED <<kfs, kept, kruns, kbad>>
(* somebody cleans up while nobody is using the cache: any files, but signatures stay *)
Clean == /\ \A p \in CProcs : kpr[p].pc = "idle"
         /\ \E n \in CNames : n[1] # "sig" /\ kfs[n] # "no" /\ kfs' = [kfs EXCEPT ![n] = "no"]
              /\ kept' = {v \in kept : \A k \in {"ctl", "dat"} : File(k, v) # n}
         /\ UNCHANGED <<kpr, kruns, kbad>>
Step(p) == Look(p) \/ Serve(p) \/ Regen(p) \/ Regen2(p) \/ Fetch(p) \/ Direct2(p) \/ Rename(p) \/ Finish(p) \/ Failed(p)
CNext == Clean \/ \E p \in CProcs : Start(p) \/ Step(p) \/ Crash(p)
CSpec == CInit /\ [][CNext]_cvars /\ \A p \in CProcs : WF_cvars(Step(p))
(* a package is served only when it is complete, and what a finished run kept stays usable *)
Complete == kbad \cap {"ctl", "sig", "dat", "tar"} = {}
Usable == "lost" \notin kbad
Kept == \A v \in kept : Has("ctl", v) = "full" /\ Has("dat", v) = "full" /\ Has("sig", v) = "full"
(* a run that does not die ends, and fails only without the origin *)
Ends == \A p \in CProcs : kpr[p].pc # "idle" ~> kpr[p].pc = "idle"
FailsOnlyDown == \A p \in CProcs : kpr[p].pc = "failed" => ~kpr[p].up
====
