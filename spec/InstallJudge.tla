---------------------------- MODULE InstallJudge ----------------------------
EXTENDS Judge, Install
Ints(s) == ToSet(s)
Names(pks) == {pks[i].name : i \in 1..Len(pks)}
FitsBut(g, w) == g.k = w.k /\ (w.k # "dir" => g.c = w.c) /\ (w.k \in {"reg", "dir"} /\ w.perm >= 0 => g.perm = w.perm)
Fits(g, w) == FitsBut(g, w) /\ (w.k # "link" => g.x = w.x)
RootOK(rt, got) ==
  LET G == {got[i].p : i \in 1..Len(got)} IN
  /\ G = DOMAIN rt /\ Cardinality(G) = Len(got)
  /\ \A i \in 1..Len(got) : Fits(got[i], rt[got[i].p])
\* the filesystem failed while entry e took the root from a to b: got is in between, e there or not but never half
Between(a, b, e, got) ==
  LET G == {got[i].p : i \in 1..Len(got)}
      At(q) == got[CHOOSE i \in 1..Len(got) : got[i].p = q]
      p == Real(a, e.p)
      ups == ProperUps(p)
  IN /\ Cardinality(G) = Len(got)
     /\ \A q \in (G \cup DOMAIN a) \ ({p} \cup ups) : q \in G /\ Has(a, q) /\ Fits(At(q), a[q])
     /\ \A q \in ups : IF Has(a, q) THEN q \in G /\ Fits(At(q), a[q]) ELSE q \in G => Has(b, q) /\ Fits(At(q), b[q])
     \* its attributes are set after it was written
     /\ IF p \in G THEN (Has(a, p) /\ Fits(At(p), a[p])) \/ (Has(b, p) /\ (Fits(At(p), b[p]) \/ (FitsBut(At(p), b[p]) /\ At(p).x \in {"", "?half"})))
        ELSE Has(a, p) => e.k = "reg" /\ Has(b, p) /\ a[p] # b[p]
\* whose files they are then: what is there of e is of the installation that failed
Sides(sa, sb, e, got) ==
  LET p == Real(sa.rt, e.p)
      At == {got[i] : i \in {j \in 1..Len(got) : got[j].p = p}}
      done == \E g \in At : Has(sb.rt, p) /\ FitsBut(g, sb.rt[p])
  IN (IF done THEN {sb} ELSE {}) \cup (IF ~done \/ \E g \in At : Has(sa.rt, p) /\ Fits(g, sa.rt[p]) THEN {sa} ELSE {})
Mixed(a, b, got) == [q \in {got[i].p : i \in 1..Len(got)} |-> IF Has(a, q) /\ Fits(got[CHOOSE i \in 1..Len(got) : got[i].p = q], a[q]) THEN a[q]
                       ELSE IF b[q].k # "link" THEN [b[q] EXCEPT !.x = got[CHOOSE i \in 1..Len(got) : got[i].p = q].x] ELSE b[q]]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* state of a history: [cs: the states the root may be in, see Install, pks, names, idb, sc, tr, over, bad]
B(x, n) == IF x THEN {} ELSE {n}
\* what c.pk makes of st0, one of st.cs: the states the root may be in afterwards, and what is wrong with the outcome
Outcome(mode, st, st0, c, o) ==
  LET base == Len(st.pks)
      pks == st.pks \o c.pk          \* packages are numbered through all calls: owners persist in an APK object
      todo == SelectSeq([i \in 1..Len(c.pk) |-> base + i], LAMBDA i : pks[i].name \notin st.names)
      fl == Flat(pks, todo, 1)
      from == IF c.new THEN IState(IF mode = "dir" THEN [q \in DOMAIN st0.rt |-> [st0.rt[q] EXCEPT !.x = ""]] ELSE st0.rt, NoRoot, {}, NoRoot) ELSE [st0 EXCEPT !.lst = <<>>]
      ss == States(mode, pks, from, fl)
      fin == ss[Len(ss)]
      F == {base + i : i \in Ints(c.fail)}
      good == F = {} /\ fin.ok
      \* how far a failed call may have come: entries of the packages before the first that cannot be fetched
      lim == Min({Len(ss), 1 + IF F = {} THEN Len(fl) ELSE Len(Flat(pks, SelectSeq(todo, LAMBDA i : i < Min(F)), 1))})
      stops == {k \in 1..lim : ss[k].ok /\ RootOK(ss[k].rt, o.root)}
      halves == IF ~o.fired THEN {} ELSE {k \in 1..lim - 1 : ss[k].ok /\ ss[k + 1].ok /\ Between(ss[k].rt, ss[k + 1].rt, fl[k][2], o.root)}
      next == {Failed(ss[k], from, base) : k \in stops} \cup UNION {{Failed([s EXCEPT !.rt = Mixed(ss[k].rt, ss[k + 1].rt, o.root)], from, base) : s \in Sides(ss[k], ss[k + 1], fl[k][2], o.root)} : k \in halves}
      sc == st.sc \o Cat([j \in 1..Len(todo) |-> ScriptsOf(pks[todo[j]], c.sde)])
      tr == st.tr \o Cat([j \in 1..Len(todo) |-> TriggersOf(pks[todo[j]])])
  IN IF o.err THEN [next |-> next, bad |->
            B(~good \/ c.cancel \/ o.fired, "error")
       \cup B(o.idb = st.idb, "failed:database")
       \cup B(next # {}, "failed:root")
       \cup B(o.sc = st.sc, "failed:scripts")
       \cup B(o.tr = st.tr, "failed:triggers")
       \cup B(fin.ok \/ F # {} \/ c.cancel \/ o.fired \/ (LET n == fl[Len(ss) - 1][2] IN n.k = "reg" /\ Has(ss[Len(ss) - 1].own, n.p) => n.p \in Ints(o.named)), "failed:name")]
     ELSE [next |-> {fin}, bad |-> B(good, "no-error")
       \cup (IF ~good THEN {} ELSE
          B(RootOK(fin.rt, o.root), "root")
          \cup B(o.sc = sc, "scripts") \cup B(o.tr = tr, "triggers")
          \cup B(Len(o.idb) = Len(st.idb) + Len(todo) /\ Prefix(st.idb, o.idb), "database")
          \cup (IF Len(o.idb) # Len(st.idb) + Len(todo) THEN {} ELSE
             B(\A j \in 1..Len(todo) : LET d == o.idb[Len(st.idb) + j]  pk == pks[todo[j]] IN
                 d.name = pk.name /\ d.ver = pk.ver /\ d.sum = pk.sum /\ d.org = pk.org, "database-order")
             \cup B(\A j \in 1..Len(todo) : LET d == o.idb[Len(st.idb) + j] IN
                 Cardinality(ToSet(d.files)) = Len(d.files) /\ ListedOK(fin, todo[j], ToSet(d.files)), "database-files"))
          \cup B(o.wh = Len(fl) \/ mode # "lazy", "headers"))]
Call(mode, st, c, o) ==
  IF st.over THEN st
  ELSE IF o.hang THEN [st EXCEPT !.over = TRUE, !.bad = st.bad \cup {"hang"}]
  ELSE LET rs == {Outcome(mode, st, s, c, o) : s \in st.cs}
           well == {x \in rs : x.bad = {}}
           after == [st EXCEPT !.pks = st.pks \o c.pk]
       IN IF well = {} THEN [after EXCEPT !.over = TRUE, !.bad = (CHOOSE x \in rs : TRUE).bad]
          ELSE IF o.err THEN [after EXCEPT !.cs = UNION {x.next : x \in well}]
          ELSE [after EXCEPT !.cs = UNION {x.next : x \in well}, !.names = st.names \cup Names(c.pk), !.idb = o.idb, !.sc = o.sc, !.tr = o.tr]
Rt0(mode) == IF mode = "lazy" THEN NoRoot ELSE [q \in {<<"lib">>} |-> [k |-> "dir", c |-> "", perm |-> 493, tg |-> <<>>, x |-> ""]]
JBad(r) == FoldLeft(LAMBDA st, i : Call(r.mode, st, r.calls[i], r.outs[i]), [cs |-> {IState(Rt0(r.mode), NoRoot, {}, NoRoot)}, pks |-> <<>>, names |-> {}, idb |-> <<>>, sc |-> <<>>, tr |-> <<>>, over |-> FALSE, bad |-> {}], [i \in 1..Len(r.outs) |-> i]).bad
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
