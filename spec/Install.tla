------------------------------ MODULE Install -------------------------------
(* What installing a list of packages does to a root: files and their       *)
(* owners, the installed database, the scripts archive and the triggers.    *)
(* A package: [name, ver, sum, org, repl, es, sc, tr]; an entry of its data *)
(* section: [p: components, k, c, perm, tg, x: extended attribute or ""].   *)
(* A root is a function from paths to [k, c, perm, tg, x]; an owner table a *)
(* function from paths to package numbers.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
CONSTANT IVariant
\* ---- the root ----
NoRoot == [q \in {} |-> 0]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Has(rt, p) == p \in DOMAIN rt
Put(rt, p, v) == [q \in DOMAIN rt \cup {p} |-> IF q = p THEN v ELSE rt[q]]
\* p with its directories' links followed (targets here are from the root of the tree)
RECURSIVE Res(_, _, _)
Res(rt, p, n) ==
  IF p = <<>> \/ n = 0 THEN p
  ELSE LET d == Res(rt, Parent(p), n - 1)
           d2 == IF d # <<>> /\ Has(rt, d) /\ rt[d].k = "link" THEN Res(rt, rt[d].tg, n - 1) ELSE d
       IN Append(d2, p[Len(p)])
Real(rt, p) == Res(rt, p, 8)
\* the directory p stands for, <<"?">> if it is none
DirAt(rt, p) == LET r == Real(rt, p)  s == IF Has(rt, r) /\ rt[r].k = "link" THEN Real(rt, rt[r].tg) ELSE r
                IN IF s = <<>> \/ (Has(rt, s) /\ rt[s].k = "dir") THEN s ELSE <<"?">>
ParentOK(rt, p) == DirAt(rt, Parent(p)) # <<"?">>
RECURSIVE MkAll(_, _, _)
\* make p and what is missing above it; [ok, rt]
MkAll(rt, p, perm) ==
  IF DirAt(rt, p) # <<"?">> THEN [ok |-> TRUE, rt |-> rt]
  ELSE IF Has(rt, Real(rt, p)) THEN [ok |-> FALSE, rt |-> rt]
  ELSE LET up == MkAll(rt, Parent(p), -1) IN
    IF ~up.ok THEN up ELSE [ok |-> TRUE, rt |-> Put(up.rt, Real(up.rt, p), [k |-> "dir", c |-> "", perm |-> perm, tg |-> <<>>, x |-> ""])]
\* ---- one entry of package number i ----
\* state: [rt, own: path -> number of its owner, or 0 for what an installation that failed left there,
\*  lo: files such an installation wrote and nobody since, lnk: path -> number of the package that lists the link or 0,
\*  lst: listed entries [i, p, k, c], ok]
IState(rt, own, lo, lnk) == [rt |-> rt, own |-> own, lo |-> lo, lnk |-> lnk, lst |-> <<>>, ok |-> TRUE]
Rec(e) == [k |-> e.k, c |-> e.c, perm |-> e.perm, tg |-> e.tg, x |-> e.x]
\* an extended attribute is set on what is there, and stays there until it is overwritten
SetX(rt, q, x) == IF x = "" \/ q = <<>> THEN rt ELSE [rt EXCEPT ![q].x = x]
Lists(st, i, e) == [st EXCEPT !.lst = Append(st.lst, [i |-> i, p |-> e.p, k |-> e.k, c |-> e.c])]
Bad(st) == [st EXCEPT !.ok = FALSE]
SameOrigin(a, b) == a.org # "" /\ a.org = b.org
Replaces(a, b) == \E j \in 1..Len(a.repl) : a.repl[j] = b.name
\* what becomes of a regular file whose path already holds other contents of a package
Rule(owner, pk) ==
  IF Replaces(owner, pk) THEN "keep"
  ELSE IF Replaces(pk, owner) \/ (IF IVariant = "noorigin" THEN owner.org = pk.org ELSE SameOrigin(owner, pk)) THEN "over"
  ELSE "fail"
RegStep(st, pks, i, e) ==
  LET q == Real(st.rt, e.p)
      owned == Has(st.own, e.p) /\ st.own[e.p] # 0
      Mine(rt) == Lists([st EXCEPT !.rt = rt, !.own = Put(st.own, e.p, i), !.lo = st.lo \ {e.p}], i, e)
      same == st.rt[q].c = e.c
  IN
  IF ~Has(st.rt, q) THEN IF ParentOK(st.rt, e.p) THEN Mine(Put(st.rt, q, Rec(e))) ELSE Bad(st)
  ELSE IF st.rt[q].k # "reg" THEN Bad(st)
  ELSE IF same /\ owned /\ e.p \notin st.lo THEN Lists(st, i, e)
  ELSE IF ~same /\ ~Has(st.own, e.p) THEN Bad(st)
  ELSE LET w == IF owned THEN Rule(pks[st.own[e.p]], pks[i]) ELSE "over" IN
    CASE w = "keep" -> Lists(st, i, e)
      [] w = "over" -> Mine(IF same THEN SetX(st.rt, q, e.x) ELSE Put(st.rt, q, IF IVariant = "inheritx" /\ e.x = "" THEN [Rec(e) EXCEPT !.x = st.rt[q].x] ELSE Rec(e)))
      [] w = "fail" -> Bad(st)
EntStep(st, pks, i, e) ==
  LET q == Real(st.rt, e.p)
      Link(rt) == Lists([st EXCEPT !.rt = rt, !.lnk = Put(st.lnk, e.p, i)], i, e) IN
  CASE e.k = "dir" -> LET m == MkAll(st.rt, e.p, e.perm) IN IF m.ok THEN Lists([st EXCEPT !.rt = SetX(m.rt, DirAt(m.rt, e.p), e.x)], i, e) ELSE Bad(st)
    [] e.k = "reg" -> RegStep(st, pks, i, e)
    [] e.k = "link" -> IF Has(st.rt, q) THEN (IF st.rt[q].k # "link" \/ st.rt[q].c # e.c THEN Bad(st)
                                              ELSE IF Has(st.lnk, e.p) /\ st.lnk[e.p] # 0 THEN st ELSE Link(st.rt))
                       ELSE IF ParentOK(st.rt, e.p) THEN Link(Put(st.rt, q, Rec(e))) ELSE Bad(st)
    [] e.k = "hard" -> LET t == Real(st.rt, e.tg) IN
                       IF Has(st.rt, q) \/ ~Has(st.rt, t) \/ ~ParentOK(st.rt, e.p) THEN Bad(st)
                       ELSE Lists([st EXCEPT !.rt = Put(st.rt, q, [st.rt[t] EXCEPT !.k = "reg"])], i, e)
    [] e.k = "other" -> Bad(st)
\* a root that takes headers (WriteHeaderer): everything is written, the last one wins
LazyStep(st, i, e) == Lists([st EXCEPT !.rt = Put(st.rt, e.p, Rec(e)), !.own = IF e.k = "reg" THEN Put(st.own, e.p, i) ELSE st.own], i, e)
\* ---- the entries of packages from..to in order: pairs <<package, entry>> ----
RECURSIVE Flat(_, _, _)
Flat(pks, todo, j) == IF j > Len(todo) THEN <<>> ELSE [x \in 1..Len(pks[todo[j]].es) |-> <<todo[j], pks[todo[j]].es[x]>>] \o Flat(pks, todo, j + 1)
Step1(mode, pks, st, x) == IF ~st.ok THEN st ELSE IF mode = "lazy" THEN LazyStep(st, x[1], x[2]) ELSE EntStep(st, pks, x[1], x[2])
\* the states after 0, 1, 2, .. entries, up to the first that fails
States(mode, pks, st0, fl) == FoldLeft(LAMBDA ss, x : IF ~ss[Len(ss)].ok THEN ss ELSE Append(ss, Step1(mode, pks, ss[Len(ss)], x)), <<st0>>, fl)
\* ---- an installation of packages base+1.. that started in st0 and failed when it had come to st ----
\* nothing of it is installed: what its packages own goes back
GiveBack(own, own0, base) == [p \in DOMAIN own |-> IF own[p] <= base THEN own[p] ELSE IF Has(own0, p) THEN own0[p] ELSE 0]
Failed(st, st0, base) ==
  IF IVariant = "keepowner" THEN IState(st.rt, st.own, st.lo, st.lnk)
  ELSE IState(st.rt, GiveBack(st.own, st0.own, base), IF IVariant = "oldowner" THEN st.lo ELSE st.lo \cup {p \in DOMAIN st.own : st.own[p] > base},
              GiveBack(st.lnk, st0.lnk, base))
\* ---- the installed database: files of package i ----
Listed(st, i) == {l \in ToSet(st.lst) : l.i = i /\ (l.k = "reg" => st.own[l.p] = i)}
ProperUps(q) == {SubSeq(q, 1, n) : n \in 1..Len(q) - 1}
\* got: set of [p, k, c] listed for package i; directories above listed entries may be listed additionally
ListedOK(st, i, got) ==
  LET want == Listed(st, i)
      files == {[p |-> l.p, c |-> IF l.k = "reg" THEN l.c ELSE "*"] : l \in {x \in want : x.k # "dir"}}
      dirs == {l.p : l \in {x \in want : x.k = "dir"}}
      gf == {g \in got : ~g.d}   gd == {g.p : g \in {x \in got : x.d}}
      ups == UNION {ProperUps(l.p) : l \in want}
  IN /\ {g.p : g \in gf} = {f.p : f \in files}
     /\ \A f \in files : f.c # "*" => \E g \in gf : g.p = f.p /\ g.c = f.c
     /\ dirs \subseteq gd /\ gd \subseteq dirs \cup ups
\* ---- scripts and triggers ----
ScriptsOf(pk, sde) == [j \in 1..Len(pk.sc) |-> [n |-> pk.name \o "-" \o pk.ver \o "." \o pk.sum \o pk.sc[j].n, c |-> pk.sc[j].c, t |-> IF sde >= 0 THEN sde ELSE pk.sc[j].t]]
TriggersOf(pk) == [j \in 1..Len(pk.tr) |-> SubSeq(pk.sum, 3, Len(pk.sum)) \o " " \o pk.tr[j]]
=============================================================================
