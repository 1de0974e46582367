------------------------------ MODULE TarJudge -----------------------------
(* One archive written from a tree (tree), as read back (out).              *)
EXTENDS Judge, Tarball
E(e) == [p |-> e.p, k |-> e.k, perm |-> e.perm, uid |-> e.uid, gid |-> e.gid, data |-> e.data, tg |-> e.tg, maj |-> e.maj, min |-> e.min, x |-> ToSet(e.x), sum |-> e.sum, ino |-> e.ino]
\* the device numbers of a hard link mean nothing
M(m) == [m EXCEPT !.x = ToSet(@), !.maj = IF m.k = "hard" THEN 0 ELSE @, !.min = IF m.k = "hard" THEN 0 ELSE @]
O(o) == [o EXCEPT !.ru = ToSet(@), !.rg = ToSet(@), !.users = ToSet(@), !.groups = ToSet(@)]
Archive(r) ==
  LET es == {E(r.tree[i]) : i \in 1..Len(r.tree)}
      byname(nm) == CHOOSE e \in es : PathStr(e.p) = nm
      names == {PathStr(e.p) : e \in es}
      outn == [i \in 1..Len(r.out) |-> r.out[i].name]
  IN IF r.rerr # "" THEN {"unreadable"}
     ELSE IF ToSet(outn) # names \/ Len(outn) # Cardinality(names) THEN {"entries"}
     ELSE LET seq == [i \in 1..Len(outn) |-> byname(outn[i])]  x == Expected(O(r.opt), seq) IN
          (IF OrderOK(seq) THEN {} ELSE {"order"})
          \cup (IF r.tail = (IF r.skip THEN "open" ELSE "closed") \/ (r.skip /\ r.out = <<>>) THEN {} ELSE {"end"})
          \cup UNION {LET g == M(r.out[i]) IN {f \in DOMAIN g : g[f] # x[i][f]} : i \in 1..Len(outn)}
JBad(r) ==
  IF r.err # "" THEN (IF r.fault = "" THEN {"error"} ELSE {})
  \* the checksum of a file that ends early is that of what was read (a hard link has no body that would show it)
  ELSE (Archive(r) \ (IF r.fault = "short" THEN {"sum"} ELSE {})) \cup (IF r.same THEN {} ELSE {"not-reproducible"}) \cup (IF r.fault = "cancel" /\ r.tree # <<>> THEN {"cancelled-but-complete"} ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
