---------------------------- MODULE ResolverJudge ----------------------------
(* Oracle for C02 and C03 over recorded resolutions.                        *)
EXTENDS Judge, Resolver

Pk(r, id) == r.univ[id]                       \* ids are 1..n
Res(r, ids) == [k \in 1..Len(ids) |-> Pk(r, ids[k])]

SoundJ(r) ==
  LET univ == Range(r.univ) IN
  IF r.ok THEN SoundBad(r.univ, r.world, Res(r, r.ids))
  ELSE IF MustSucceed(univ, r.world, NeedSet(univ, r.world)) THEN {"spurious-error"} ELSE {}

\* A tagged package is selected only for a request of that tag: it is offered for such a request, or
\* reachable in the dependency and install_if graph from what is offered for it
TagJ(r) ==
  LET res == Range(Res(r, r.ids))
      univ == Range(r.univ)
      reach(t) == FoldLeft(LAMBDA acc, k : acc \cup {q \in univ \ acc : (\E p \in acc : Edge(p, q))
                                                                \/ (q.iif # <<>> /\ \E p \in acc : \E j \in 1..Len(q.iif) : q.iif[j].n = p.name)},
                           {p \in univ : \E j \in 1..Len(r.world) : r.world[j].pin = t /\ ~r.world[j].neg /\ r.world[j].n \in Names(p)},
                           [k \in 1..8 |-> k])
  IN IF r.ok /\ \E p \in res : p.tag # "" /\ p \notin reach(p.tag) THEN {"tag"} ELSE {}

\* r.runs: the results of repeated / permuted / warmed-up runs of one resolution
DetJ(r) == IF Cardinality(Range(r.runs)) = 1 THEN {} ELSE {"nondeterministic"}

\* one ranked candidate list for request r.req.  A package that provides the name without a version
\* may or may not be listed under its own version for a versioned request.
RankJ(r) ==
  LET c == r.req
      want == {p \in Range(r.univ) : Allowed(p, c.pin) /\ SatP(p, c)}
      may == {p \in Range(r.univ) : Allowed(p, c.pin) /\ c.n \in Names(p) /\ (SatP(p, c) \/ \E k \in 1..Len(p.prov) : p.prov[k].n = c.n /\ p.prov[k].v = "" /\ Satisfies(c.op, p.ver, c.v))}
      got == Res(r, r.ids)
  IN (IF want \subseteq Range(got) /\ Range(got) \subseteq may THEN {} ELSE {"candidates"})
     \cup (IF Cardinality(Range(got)) # Len(got) THEN {"candidate-twice"} ELSE {})
     \cup (IF \E k \in 1..(Len(got) - 1) : RankCmp(got[k], got[k+1], c.n, c.pin, {}, {}, {}) > 0 THEN {"rank"} ELSE {})

\* q cannot be installed together with p: p offers, under a version of its own, a name that q also has
Clash(p, q) == /\ p.id # q.id
               /\ \E k \in 1..Len(p.prov) : /\ p.prov[k].n \in Names(q)
                                           /\ \/ p.prov[k].v # "" \/ q.name = p.prov[k].n
                                              \/ \E j \in 1..Len(q.prov) : q.prov[j].n = p.prov[k].n /\ q.prov[j].v # ""
\* r.root depends on the constraint r.req; all else it depends on has one candidate, which is in r.chosen
ChoiceJ(r) ==
  LET c == r.req
      root == Pk(r, r.root)
      chosen == {Pk(r, k) : k \in Range(r.chosen)}
      cands == {p \in Range(r.univ) : c.n \in Names(p) /\ Allowed(p, r.pin) /\ SatP(p, c) /\ ~\E q \in chosen : Clash(q, p)}
      nv == {<<p.name, p.ver>> : p \in chosen}
      org == {p.org : p \in chosen} \ {""}
      best == {p \in cands : \A q \in cands : RankCmp(p, q, c.n, "", {}, nv, org) <= 0}
      got == Range(Res(r, r.ids)) \ chosen
  IN IF cands = {} THEN (IF r.ok THEN {"choice-none"} ELSE {})
     ELSE IF ~r.ok THEN {"choice-error"}
     ELSE IF \/ \E p \in best : p \in chosen /\ got = {}
             \/ Cardinality(got) = 1 /\ got \subseteq best
          THEN {} ELSE {"choice"}

\* r.world requests packages by name.  What the dependencies of one request call for has to be
\* there; nothing may be there but what all selected packages together call for.
IifJ(r) ==
  LET univ == Range(r.univ)
      req(j) == Cands(univ, r.world[j])
      needs(j) == UNION {NeededBy(univ, p) : p \in req(j)}
      must == UNION {req(j) \cup Closure(univ, needs(j), req(j), r.world[j].pin) : j \in 1..Len(r.world)}
      may == FoldLeft(LAMBDA acc, j : acc \cup Closure(univ, acc \cup req(j), {}, r.world[j].pin), {}, [k \in 1..(2 * Len(r.world)) |-> ((k - 1) % Len(r.world)) + 1])
      got == Range(Res(r, r.ids))
  IN IF ~r.ok THEN {"iif-error"}
     ELSE (IF must \subseteq got THEN {} ELSE {"iif-missing"}) \cup (IF got \subseteq may THEN {} ELSE {"iif-extra"})

JBad(r) == CASE r.kind = "sound" -> SoundJ(r)
             [] r.kind = "iif" -> IifJ(r)
             [] r.kind = "tag" -> TagJ(r)
             [] r.kind = "det" -> DetJ(r)
             [] r.kind = "rank" -> RankJ(r)
             [] r.kind = "choice" -> ChoiceJ(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
