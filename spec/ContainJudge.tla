---- MODULE ContainJudge ----
(* Judges what the real code did to and saw of the world around its root and cache. A record lists what changed outside, *)
(* what was seen of it, and for generated lookups the link targets, the path and the kind of thing that was found. *)
EXTENDS Contain, Judge
LinksOf(r) == (<<"W", "base", "L">> :> r.l) @@ (<<"W", "base", "a", "M">> :> r.m)
KindOf(p) == IF p = <<"?">> THEN "none" ELSE IF p \in NDirs THEN "dir" ELSE "file"
JBad(r) ==
     (IF r.changed # <<>> THEN {"changed outside"} ELSE {})
  \cup (IF r.seen # <<>> THEN {"read outside"} ELSE {})
  \cup (IF r.gen /\ r.found # KindOf(NEnd(LinksOf(r), r.p)) THEN {"other place"} ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
====
