--------------------------- MODULE HttpCacheJudge ---------------------------
(* Judges recorded histories of the index and key cache: events of clients  *)
(* (start, cancel, end), of the origin (serve) and of the cache directory    *)
(* (clean), process by process.                                              *)
EXTENDS Judge, Integers, FiniteSets
Put(f, k, x) == [f EXCEPT ![k] = x]
On(P, u, F(_)) == {IF p.u = u THEN F(p) ELSE p : p \in P}
B(x, n) == IF x THEN {} ELSE {n}
Zero == [u \in 1..4 |-> 0]
Fresh0(st) == [st EXCEPT !.pend = {}, !.seen = {}, !.plain = {}, !.tagged = {}, !.gets = Zero, !.head = Zero, !.got = {}]
Serve(off, st0, e) ==
  LET st == [st0 EXCEPT !.bad = @ \cup B(~off, "offline-request")]
      u == e.u  k == <<e.u, e.v>> IN
  IF e.o # "ok" THEN [st EXCEPT !.pend = On(@, u, LAMBDA p : [p EXCEPT !.flt = TRUE]), !.gets = Put(@, u, 0)]
  ELSE IF e.m = "HEAD" THEN
    IF e.t THEN [st EXCEPT !.seen = @ \cup {k}, !.tagged = @ \cup {u}, !.head = Put(@, u, e.v), !.pend = On(@, u, LAMBDA p : [p EXCEPT !.srv = TRUE])]
    ELSE [st EXCEPT !.head = Put(@, u, 0)]
  ELSE IF e.t /\ st.head[u] # 0 THEN     \* (what comes without a tag in the HEAD answer is passed on)
    LET canc == \E p \in st.pend : p.u = u /\ p.canc
        n == IF canc THEN 0 ELSE st.gets[u] + 1 IN
    [st EXCEPT !.seen = @ \cup {k}, !.cand = @ \cup {k}, !.got = @ \cup {k}, !.gets = Put(@, u, n),
       !.pend = On(@, u, LAMBDA p : [p EXCEPT !.srv = TRUE]),
       !.bad = @ \cup B(n <= 1, "downloaded-twice") \cup B(st.head[u] # e.v \/ k \notin st.disk, "downloaded-again")]
  ELSE [st EXCEPT !.plain = @ \cup {k}, !.pend = On(@, u, LAMBDA p : [p EXCEPT !.w = @ \cup {e.v}, !.flt = @ \/ (u \in st.tagged /\ ~e.t)])]
End(kind, off, st, e) ==
  LET p == CHOOSE q \in st.pend : q.c = e.c
      u == p.u  k == <<u, e.bv>>
      s1 == [st EXCEPT !.pend = @ \ {p}] IN
  IF off THEN
    IF e.ok THEN [s1 EXCEPT !.plain = IF kind = "index" THEN @ \cup {k} ELSE @, !.bad = @ \cup B(e.bu = u, "offline-other-body") \cup B(e.bu # u \/ k \in st.cand \/ p.cln \/ (kind = "index" /\ k \in st.plain), "offline-not-the-last")]
    ELSE [s1 EXCEPT !.bad = @ \cup B(u \notin st.certain \/ p.canc \/ p.cln, "offline-error")]
  ELSE IF ~e.ok THEN [s1 EXCEPT !.bad = @ \cup B(p.flt \/ p.canc, "spurious-error")]
  ELSE IF e.bu # u THEN [s1 EXCEPT !.bad = @ \cup {"other-body"}]
  ELSE LET stored == k \in st.seen /\ p.srv /\ ~p.cln /\ e.bv \notin p.w IN
       [s1 EXCEPT !.bad = @ \cup B(k \in st.seen \/ e.bv \in p.w \/ (kind = "index" /\ k \in st.plain), "not-current"),
          !.certain = IF stored THEN @ \cup {u} ELSE @,
          !.disk = IF stored THEN @ \cup {k} ELSE @,
          !.cand = IF stored /\ k \in st.got THEN {x \in @ : x[1] # u} \cup {k} ELSE @]
Event(kind, off, st, e) ==
  CASE e.e = "start" -> [st EXCEPT !.pend = @ \cup {[c |-> e.c, u |-> e.u, flt |-> \E p \in st.pend : p.u = e.u /\ p.flt, canc |-> FALSE, cln |-> FALSE, srv |-> FALSE, w |-> {}]}]
    [] e.e = "cancel" -> [st EXCEPT !.gets = [u \in 1..4 |-> IF \E p \in st.pend : p.c = e.c /\ p.u = u THEN 0 ELSE @[u]], !.pend = {IF p.c = e.c THEN [p EXCEPT !.canc = TRUE] ELSE p : p \in @}]
    [] e.e = "clean" -> [st EXCEPT !.pend = {[p EXCEPT !.flt = TRUE, !.cln = TRUE] : p \in @}, !.certain = {}, !.cand = {}, !.disk = {}, !.gets = Zero]
    [] e.e = "serve" -> Serve(off, st, e)
    [] e.e = "end" -> End(kind, off, st, e)
    [] OTHER -> st
Seg(kind, st, s) == FoldLeft(LAMBDA x, e : Event(kind, s.off, x, e), Fresh0(st), s.ev)
JBad(r) == FoldLeft(LAMBDA st, s : Seg(r.kind, st, s), [pend |-> {}, seen |-> {}, plain |-> {}, tagged |-> {}, gets |-> Zero, head |-> Zero, got |-> {}, certain |-> {}, cand |-> {}, disk |-> {}, bad |-> {}], r.segs).bad
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
