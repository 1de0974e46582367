---- MODULE RootMC ----
(* A database initialised, step by step, in a root where one or two paths are already something; any step may fail *)
(* and the process may then do it again; then the lists and keys are set.                                          *)
EXTENDS Root
CONSTANTS RWide
VARIABLES rt, rold, rfirst, rpc, rign, rres, rtries, rkeys, rtodo
rv == <<rt, rold, rfirst, rpc, rign, rres, rtries, rkeys, rtodo>>
RKinds == {"none", "dir", "odddir", "file", "dev"}
RMk(st, k) == CASE k = "dir" -> RNode("dir", st.perm, "", 0) [] k = "odddir" -> RNode("dir", 448, "", 0) [] k = "file" -> RNode("file", 384, "old", 0) [] k = "dev" -> RNode("dev", 384, "", 7) [] OTHER -> RNone
(* the directories above a path, as they should be *)
RUp(st) == IF st.par = "" THEN {} ELSE LET u == RStepOf(st.par) IN {u} \cup (IF u.par = "" THEN {} ELSE LET w == RStepOf(u.par) IN {w} \cup (IF w.par = "" THEN {} ELSE {RStepOf(w.par)}))
RWith(s, st, k) == IF k = "none" THEN s ELSE (st.p :> RMk(st, k)) @@ s @@ [p \in {u.p : u \in RUp(st)} |-> RMk(RStepOf(p), "dir")]
RSecond == CASE RWide = 2 -> DOMAIN RSteps [] RWide = 1 -> {3, 21, 25} [] OTHER -> {25}
RPriors == {RWith(RWith(<<>>, RSteps[i], k), RSteps[j], l) : i \in DOMAIN RSteps, k \in RKinds, j \in RSecond, l \in RKinds}
(* nothing lies below what is not a directory *)
RSane(s) == \A p \in DOMAIN s : p \in RPaths => LET st == RStepOf(p) IN st.par = "" \/ RGet(s, st.par).k = "dir"
MInit == /\ rt \in {s \in RPriors : RSane(s)} /\ rold = rt /\ rfirst = rt /\ rpc = 1 /\ rign \in BOOLEAN /\ rres = "run" /\ rtries = 0 /\ rkeys = <<>> /\ rtodo = {}
MStep == /\ rres = "run" /\ rpc <= Len(RSteps)
  /\ LET x == RDo(rt, RSteps[rpc], "A", rign) IN rt' = x.s /\ (IF x.ok THEN rpc' = rpc + 1 /\ rres' = (IF rpc = Len(RSteps) THEN "ok" ELSE "run") ELSE rpc' = rpc /\ rres' = "failed")
  /\ UNCHANGED <<rold, rfirst, rign, rtries, rkeys, rtodo>>
(* the operation of a step fails *)
MFault == /\ rres = "run" /\ rtries = 0
  /\ LET st == RSteps[rpc] IN
    rt' = (IF st.t = "file" /\ RGet(rt, st.p).k \in {"none", "file"} THEN RPut(rt, st.p, RNode("file", IF RGet(rt, st.p).k = "none" THEN st.perm ELSE RGet(rt, st.p).perm, "part", 0)) ELSE rt)
  /\ (IF RVariant = "skiperr" THEN rpc' = rpc + 1 /\ rres' = (IF rpc = Len(RSteps) THEN "ok" ELSE "run") ELSE rpc' = rpc /\ rres' = "faulted")
  /\ rtries' = 1 /\ UNCHANGED <<rold, rfirst, rign, rkeys, rtodo>>
MAgain == /\ rres \in {"faulted", "ok"} /\ rtries < 2 /\ rtries' = 2 /\ rold' = rt /\ rpc' = 1 /\ rres' = "run" /\ UNCHANGED <<rt, rfirst, rign, rkeys, rtodo>>
(* three keys are fetched side by side, each may fail *)
MKeys == /\ rres = "ok" /\ rkeys = <<>> /\ rtodo = {} /\ rtodo' = {"a", "b", "c"} /\ rkeys' = [x \in {"a", "b", "c"} |-> "old"] /\ rres' = "keys" /\ UNCHANGED <<rt, rold, rfirst, rpc, rign, rtries>>
MKey(x, ok) == /\ rres = "keys" /\ x \in rtodo /\ rtodo' = rtodo \ {x} /\ rkeys' = [rkeys EXCEPT ![x] = IF ok THEN "new" ELSE "failed"]
  /\ rres' = (IF rtodo # {x} THEN "keys" ELSE IF \E y \in DOMAIN rkeys' : rkeys'[y] = "failed" THEN "keysfailed" ELSE "keysok") /\ UNCHANGED <<rt, rold, rfirst, rpc, rign, rtries>>
MNext == MStep \/ MFault \/ MAgain \/ (Cardinality(DOMAIN rfirst) < 1 /\ (MKeys \/ \E x \in {"a", "b", "c"}, ok \in BOOLEAN : MKey(x, ok)))
(* --- laws --- *)
Exact == rres \in {"ok", "keys", "keysok"} => RExact(rt, rold, "A", rign)
BadBase == \A i \in 1..6 : LET o == RGet(rfirst, RSteps[i].p) IN
   (o.k # "none" /\ (o.k # "dir" \/ o.perm % 512 # RSteps[i].perm % 512)) => RGet(rt, RSteps[i].p) = o /\ rres # "ok"
Others == \A p \in DOMAIN rt : p \in RPaths \/ (p \in DOMAIN rfirst /\ rt[p] = rfirst[p])
(* what failed for want of space or the like can be done again; what is initialised can be initialised again *)
Agreed == RInit(rfirst, "A", rign).ok
Repeats == (rtries = 2 /\ rign /\ Agreed) => rres # "failed"
StepsAgree == (rtries = 0 /\ rres \in {"ok", "failed"}) => (rres = "ok") = Agreed
KeysAll == rres = "keysok" => \A x \in DOMAIN rkeys : rkeys[x] = "new"
====
