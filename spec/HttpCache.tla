----------------------------- MODULE HttpCache ----------------------------
(* The cache for indexes and keys.  An origin serves one version (with or   *)
(* without an entity tag) of every URL at a time; requests of one process   *)
(* share the first successful result for a URL; complete bodies stay on     *)
(* disk under URL and tag over restarts; an offline process reads the body  *)
(* stored last.  Body v of URL u is <<u, v, TRUE>>, a torn one has FALSE.   *)
(* hist records the schedule: it generates the histories that are replayed. *)
(* HVariant names defects that must be found: rememberFail, cancelAll,      *)
(* sharedFile, headTag, partial, noCheck, vanish, anyOffline, twice.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS HUrls, HVers, HClients, HVariant, HLen, HProcs
VARIABLES horg, hdisk, hlast, hmem, hcl, hseen, hgets, hproc, hoff, hist
hvars == <<horg, hdisk, hlast, hmem, hcl, hseen, hgets, hproc, hoff, hist>>
hview == <<horg, hdisk, hlast, hmem, hcl, hseen, hgets, hproc, hoff, Len(hist)>>
Idle == [pc |-> "idle", u |-> 0, v |-> 0, flt |-> FALSE, canc |-> FALSE, ok |-> FALSE, b |-> <<>>]
NoMem == [st |-> "none", v |-> 0]
Init == /\ horg \in [HUrls -> [v : {1}, tag : BOOLEAN]] /\ hdisk = <<>> /\ hlast = [u \in HUrls |-> 0] /\ hmem = [u \in HUrls |-> NoMem]
        /\ hcl = [c \in HClients |-> Idle] /\ hseen = {} /\ hgets = [u \in HUrls |-> 0] /\ hproc = 1 /\ hoff = FALSE /\ hist = <<>>
Log(x) == Len(hist) < HLen /\ hist' = Append(hist, x)
Name(u, v) == <<IF HVariant = "sharedFile" THEN 0 ELSE u, v>>
OnDisk(u, v) == Name(u, v) \in DOMAIN hdisk
Put(d, n, b) == [m \in DOMAIN d \cup {n} |-> IF m = n THEN b ELSE d[m]]
Done(cl, c, ok, b) == [cl EXCEPT ![c] = [@ EXCEPT !.pc = "done", !.ok = ok, !.b = b]]
Busy(u) == {c \in HClients : hcl[c].u = u /\ hcl[c].pc \in {"call", "wait", "head", "get", "fwd"}}
\* what a client finds on (re)entry
Enter(c) ==
  /\ hcl[c].pc = "call"
  /\ LET u == hcl[c].u  m == hmem[u] IN
     CASE hoff -> /\ UNCHANGED <<hmem>>
                  /\ hcl' = IF hlast[u] = 0 THEN Done([hcl EXCEPT ![c].canc = TRUE], c, FALSE, <<>>)
                            ELSE Done(hcl, c, TRUE, hdisk[CHOOSE n \in DOMAIN hdisk : IF HVariant = "anyOffline" THEN n[1] = u /\ \A k \in DOMAIN hdisk : k[1] = u => n[2] <= k[2] ELSE n = Name(u, hlast[u])])
       [] ~hoff /\ m.st \in {"none"} -> hmem' = [hmem EXCEPT ![u] = [st |-> "busy", v |-> 0]] /\ hcl' = [hcl EXCEPT ![c].pc = "head"]
       [] ~hoff /\ m.st = "busy" -> UNCHANGED hmem /\ hcl' = IF HVariant = "twice" THEN [hcl EXCEPT ![c].pc = "head"] ELSE [hcl EXCEPT ![c].pc = "wait"]
       [] ~hoff /\ m.st = "fail" -> UNCHANGED hmem /\ hcl' = Done(hcl, c, FALSE, <<>>)
       [] ~hoff /\ m.st = "plain" -> UNCHANGED hmem /\ hcl' = [hcl EXCEPT ![c].pc = "fwd"]
       [] ~hoff /\ m.st = "file" -> IF OnDisk(u, m.v) THEN UNCHANGED hmem /\ hcl' = Done(hcl, c, TRUE, hdisk[Name(u, m.v)])
                            ELSE IF HVariant = "vanish" THEN UNCHANGED hmem /\ hcl' = Done(hcl, c, FALSE, <<>>)
                            ELSE hmem' = [hmem EXCEPT ![u] = NoMem] /\ UNCHANGED hcl
  /\ UNCHANGED <<horg, hdisk, hlast, hseen, hgets, hproc, hoff, hist>>
Start(c, u) == /\ hcl[c].pc \in {"idle", "done"} /\ hcl' = [hcl EXCEPT ![c] = [Idle EXCEPT !.pc = "call", !.u = u]]
               /\ Log([a |-> "start", c |-> c, u |-> u, o |-> "", v |-> 0, t |-> FALSE])
               /\ UNCHANGED <<horg, hdisk, hlast, hmem, hseen, hgets, hproc, hoff>>
\* a failure seen by everybody who wants u; those who wait for it get it
FailAll(u) == /\ hcl' = [c \in HClients |-> IF hcl[c].u = u /\ hcl[c].pc \in {"head", "get", "wait"} THEN Done([hcl EXCEPT ![c].flt = TRUE], c, FALSE, <<>>)[c]
                                             ELSE IF c \in Busy(u) THEN [hcl[c] EXCEPT !.flt = TRUE] ELSE hcl[c]]
              /\ hmem' = [hmem EXCEPT ![u] = IF HVariant = "rememberFail" THEN [st |-> "fail", v |-> 0] ELSE NoMem]
Wake(s, u, m) == /\ hmem' = [hmem EXCEPT ![u] = m]
              /\ hcl' = [c \in HClients |-> IF c = s \/ (hcl[c].u = u /\ hcl[c].pc \in (IF HVariant = "twice" THEN {"wait"} ELSE {"head", "get", "wait"})) THEN [hcl[c] EXCEPT !.pc = "call"] ELSE hcl[c]]
Serve(c, out) ==
  LET u == hcl[c].u  g == horg[u] IN
  /\ hcl[c].pc \in {"head", "get", "fwd"}
  /\ Log([a |-> "serve", c |-> 0, u |-> u, o |-> out, v |-> 0, t |-> FALSE])
  /\ UNCHANGED <<horg, hproc, hoff>>
  /\ CASE out # "ok" /\ hcl[c].pc = "fwd" -> hcl' = Done([hcl EXCEPT ![c].flt = TRUE], c, FALSE, <<>>) /\ UNCHANGED <<hdisk, hlast, hmem, hseen, hgets>>
       [] out # "ok" /\ hcl[c].pc # "fwd" ->
            /\ FailAll(u) /\ UNCHANGED <<hlast, hseen, hgets>>
            /\ hdisk' = IF HVariant = "partial" /\ out = "cut" /\ hcl[c].pc = "get" /\ g.tag /\ ~OnDisk(u, g.v) THEN Put(hdisk, Name(u, g.v), <<u, g.v, FALSE>>) ELSE hdisk
       [] out = "ok" /\ hcl[c].pc = "fwd" -> /\ hcl' = Done(hcl, c, TRUE, <<u, g.v, TRUE>>) /\ hseen' = hseen \cup {<<u, g.v>>}
                                             /\ UNCHANGED <<hdisk, hlast, hmem, hgets>>
       [] out = "ok" /\ hcl[c].pc = "head" ->
            /\ UNCHANGED <<hdisk, hlast, hgets>>
            /\ hseen' = IF g.tag THEN hseen \cup {<<u, g.v>>} ELSE hseen
            /\ IF ~g.tag THEN Wake(c, u, [st |-> "plain", v |-> 0])
               ELSE IF HVariant = "noCheck" /\ hlast[u] # 0 THEN Wake(c, u, [st |-> "file", v |-> hlast[u]])
               ELSE IF OnDisk(u, g.v) THEN Wake(c, u, [st |-> "file", v |-> g.v])
               ELSE hcl' = [hcl EXCEPT ![c].pc = "get", ![c].v = g.v] /\ UNCHANGED hmem
       [] out = "ok" /\ hcl[c].pc = "get" ->
            IF ~g.tag THEN FailAll(u) /\ UNCHANGED <<hdisk, hlast, hseen, hgets>>
            ELSE LET w == IF HVariant = "headTag" THEN hcl[c].v ELSE g.v IN
                 /\ hdisk' = Put(hdisk, Name(u, w), <<u, g.v, TRUE>>) /\ hlast' = [hlast EXCEPT ![u] = w]
                 /\ hseen' = hseen \cup {<<u, g.v>>} /\ hgets' = [hgets EXCEPT ![u] = @ + 1]
                 /\ Wake(c, u, [st |-> "file", v |-> w])
Cancel(c) ==
  LET u == hcl[c].u  own == hcl[c].pc \in {"head", "get"} IN
  /\ hcl[c].pc \in {"head", "get", "fwd"}
  /\ Log([a |-> "cancel", c |-> c, u |-> u, o |-> "", v |-> 0, t |-> FALSE])
  /\ hcl' = [d \in HClients |-> IF d = c THEN Done([hcl EXCEPT ![c].canc = TRUE], c, FALSE, <<>>)[c]
                                ELSE IF own /\ hcl[d].u = u /\ hcl[d].pc = "wait"
                                THEN IF HVariant = "cancelAll" THEN Done(hcl, d, FALSE, <<>>)[d] ELSE [hcl[d] EXCEPT !.pc = "call"] ELSE hcl[d]]
  /\ hmem' = IF own THEN [hmem EXCEPT ![u] = NoMem] ELSE hmem
  /\ UNCHANGED <<horg, hdisk, hlast, hseen, hgets, hproc, hoff>>
Change(u, v, t) == /\ horg[u] # [v |-> v, tag |-> t] /\ horg' = [horg EXCEPT ![u] = [v |-> v, tag |-> t]]
                   /\ Log([a |-> "change", c |-> 0, u |-> u, o |-> "", v |-> v, t |-> t])
                   /\ UNCHANGED <<hdisk, hlast, hmem, hcl, hseen, hgets, hproc, hoff>>
\* the process dies, whatever it is doing
Restart(off) == /\ hproc < HProcs /\ hproc' = hproc + 1 /\ hoff' = off /\ hmem' = [u \in HUrls |-> NoMem] /\ hcl' = [c \in HClients |-> Idle]
                /\ hseen' = {} /\ hgets' = [u \in HUrls |-> 0]
                /\ Log([a |-> "restart", c |-> 0, u |-> 0, o |-> IF off THEN "off" ELSE "", v |-> 0, t |-> FALSE])
                /\ UNCHANGED <<horg, hdisk, hlast>>
\* somebody empties the cache directory
Clean == /\ hdisk # <<>> /\ hdisk' = <<>> /\ hlast' = [u \in HUrls |-> 0] /\ hgets' = [u \in HUrls |-> 0]
         /\ Log([a |-> "clean", c |-> 0, u |-> 0, o |-> "", v |-> 0, t |-> FALSE])
         /\ hcl' = [c \in HClients |-> IF hcl[c].pc = "done" THEN Idle ELSE hcl[c]]
         /\ UNCHANGED <<horg, hmem, hseen, hproc, hoff>>
Env == \/ \E c \in HClients, u \in HUrls : Start(c, u)
       \/ \E c \in HClients, out \in {"ok", "cut", "conn", "500", "404"} : Serve(c, out)
       \/ \E c \in HClients : Cancel(c)
       \/ \E u \in HUrls, v \in HVers, t \in BOOLEAN : Change(u, v, t)
       \/ \E off \in BOOLEAN : Restart(off)
       \/ Clean
Next == IF \E c \in HClients : hcl[c].pc = "call" THEN Enter(CHOOSE c \in HClients : hcl[c].pc = "call" /\ \A d \in HClients : hcl[d].pc = "call" => c <= d) ELSE Env
DoneOk(c) == hcl[c].pc = "done" /\ hcl[c].ok
Own == \A c \in HClients : DoneOk(c) => hcl[c].b[1] = hcl[c].u /\ hcl[c].b[3]
Fresh == \A c \in HClients : DoneOk(c) /\ ~hoff => <<hcl[c].b[1], hcl[c].b[2]>> \in hseen
Spurious == \A c \in HClients : hcl[c].pc = "done" /\ ~hcl[c].ok => hcl[c].flt \/ hcl[c].canc
Once == \A u \in HUrls : hgets[u] <= 1
Last == \A c \in HClients : DoneOk(c) /\ hoff => hcl[c].b[2] = hlast[hcl[c].u]
Generate == Len(hist) = HLen => PrintT("GEN " \o ToJson([org |-> [u \in HUrls |-> horg[u].tag], hist |-> hist]))
=============================================================================
