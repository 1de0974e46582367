----------------------------- MODULE ArcJudge ------------------------------
(* One archive (ms) seen through one view (view): the walk over everything, *)
(* and questions qs: [op, p, err, list, kind, perm, size, data, tabs, tg].  *)
EXTENDS Judge, ArcView
IsKind(ms, p, kd) == AKind(AMember(ms, p).k) = kd
PermOK(ms, p, pm) == AMember(ms, p).perm \in {-1, pm}
SizeOK(ms, p, sz) == LET m == AMember(ms, p) IN m.k = "file" => sz = Len(m.data)
AskBad(r, q) ==
  LET ms == r.ms  f == AResolve(ms, q.p, q.op # "stat" /\ q.op # "readlink") IN
  IF f.err = "noent" THEN (IF q.err = "noent" THEN {} ELSE {q.op \o "-missing"})
  ELSE IF f.err = "loop" THEN (IF q.err # "" THEN {} ELSE {q.op \o "-loop"})
  ELSE LET m == AMember(ms, f.p) IN
    IF q.op = "readdir" THEN
      (IF m.k # "dir" THEN (IF q.err # "" THEN {} ELSE {"readdir-of-file"})
       ELSE IF q.err # "" THEN {"readdir-error"}
       ELSE LET names == {q.list[i].n : i \in 1..Len(q.list)} IN
            (IF names = ADirNames(ms, f.p) /\ Cardinality(names) = Len(q.list) THEN
               (IF \A i \in 1..Len(q.list) : LET e == q.list[i]  c == Append(f.p, e.n) IN
                     IsKind(ms, c, e.kind) /\ IsKind(ms, c, e.tkind) /\ PermOK(ms, c, e.perm) /\ SizeOK(ms, c, e.size) THEN {} ELSE {"readdir-entry"})
             ELSE {"readdir-names"})
            \cup (IF \A i \in 1..Len(q.list) - 1 : q.list[i].ord < q.list[i + 1].ord THEN {} ELSE {"readdir-order"}))
    ELSE IF q.op = "readlink" THEN
      (IF m.k = "hard" THEN {} ELSE IF m.k # "link" THEN (IF q.err # "" THEN {} ELSE {"readlink-of-file"})
       ELSE IF q.err = "" /\ q.tabs = m.abs /\ q.tg = m.tg THEN {} ELSE {"readlink"})
    ELSE IF q.err # "" THEN {q.op \o "-error"}
    ELSE (IF IsKind(ms, f.p, q.kind) /\ PermOK(ms, f.p, q.perm) THEN {} ELSE {q.op \o "-mode"})
         \cup (IF SizeOK(ms, f.p, q.size) THEN {} ELSE {q.op \o "-size"})
         \cup (IF q.op = "open" /\ m.k \in {"file", "dev"} /\ q.data # m.data THEN {"contents"} ELSE {})
         \cup (IF q.name # (IF f.p = <<>> THEN q.name ELSE f.p[Len(f.p)]) THEN {q.op \o "-name"} ELSE {})
JBad(r) ==
  IF ~Consistent(r.ms) THEN {}
  ELSE IF r.err # "" THEN {"error"}
  ELSE UNION {AskBad(r, r.qs[i]) : i \in 1..Len(r.qs)}
       \cup (IF r.walkerr # "" \/ ToSet(r.walk) # APaths(r.ms) \/ Len(r.walk) # Cardinality(APaths(r.ms)) THEN {"walk"} ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
