---- MODULE ContainMC ----
(* Every path of up to four names with every pair of link targets, one name per step; every URL path of up to four segments with short tags. *)
EXTENDS Contain, Json
CONSTANTS NLen, NGen
VARIABLES nl, ns, np
NPaths == UNION {[1..n -> NNames] : n \in 1..NLen}
NInit == /\ nl \in [NLinkAt -> NTargets] /\ np \in NPaths /\ ns = NStart(np)
NNext == ns.left # <<>> /\ ns.at # <<"?">> /\ ns' = NGo(nl, ns) /\ UNCHANGED <<nl, np>>
(* never a place outside, on the way or in the end *)
Inside == ns.at = <<"?">> \/ IsIn(ns.at)
Agrees == (ns.left = <<>> \/ ns.at = <<"?">>) => ns.at = NEnd(nl, np)
Kind(p) == IF p = <<"?">> THEN "none" ELSE IF p \in NDirs THEN "dir" ELSE "file"
Generate == ns.left # np \/ ns.n # 0 \/ ~NGen \/ PrintT("GEN " \o ToJson([l |-> nl[<<"W", "base", "L">>], m |-> nl[<<"W", "base", "a", "M">>], p |-> np, k |-> Kind(NEnd(nl, np)), at |-> NEnd(nl, np)]))
CUrls == UNION {[1..n -> NSeg] : n \in 0..NLen}
CTags == UNION {[1..n -> {"..", "", "e"}] : n \in 1..3}
CacheInside == \A u \in CUrls, t \in CTags : LET c == CachePlace(u, t) IN
   c = <<>> \/ (LET q == NClean(c) IN Len(q) > 2 /\ q[1] = "C" /\ \A i \in DOMAIN c : c[i] # "..")
CacheOwn == \A u, v \in CUrls : (CachePlace(u, <<"e">>) = CachePlace(v, <<"e">>)) => NClean(u) = NClean(v)
ASSUME CacheInside
ASSUME CacheOwn
NoNext == FALSE /\ UNCHANGED <<nl, ns, np>>
====
