------------------------------ MODULE Resolver ------------------------------
(* What a resolved package set must satisfy (C02) and how candidates are    *)
(* ranked (C03).  A package is a record                                      *)
(*   [id, name, ver, prov: seq of [n, v], deps: seq of constraint,           *)
(*    org, prio, tag, iif]                                                   *)
(* a constraint [neg, n, op, v, pin].                                        *)
EXTENDS Version, Functions

SatP(p, c) == \/ p.name = c.n /\ Satisfies(c.op, p.ver, c.v)
              \/ \E k \in 1..Len(p.prov) : p.prov[k].n = c.n /\ Satisfies(c.op, p.prov[k].v, c.v)
Names(p) == {p.name} \cup {p.prov[k].n : k \in 1..Len(p.prov)}
Rng(s) == {s[k] : k \in DOMAIN s}

(* ---- soundness of a result: world is a sequence of constraints, res a ---- *)
(* ---- sequence of packages                                            ---- *)
Unsatisfied(world, res) ==
  {"request" : c \in {x \in Rng(world) : ~x.neg /\ ~\E p \in Rng(res) : SatP(p, x)}}
  \cup {"request-excludes" : c \in {x \in Rng(world) : x.neg /\ \E p \in Rng(res) : SatP(p, x)}}
  \cup UNION {{"dependency" : c \in {x \in Rng(p.deps) : ~x.neg /\ ~\E q \in Rng(res) : SatP(q, x)}} : p \in Rng(res)}
  \cup UNION {{"dependency-excludes" : c \in {x \in Rng(p.deps) : x.neg /\ \E q \in Rng(res) \ {p} : SatP(q, x)}} : p \in Rng(res)}
\* all conditions of the install_if package p are met by the packages of S
IifMet(p, S) == p.iif # <<>> /\ \A k \in 1..Len(p.iif) : \E q \in S \ {p} : SatP(q, p.iif[k])
SameName(res) == \E i, j \in 1..Len(res) : i < j /\ res[i].name = res[j].name /\ res[i].id # res[j].id
Twice(res) == \E i, j \in 1..Len(res) : i < j /\ res[i].id = res[j].id

(* ---- order ---- *)
\* the dependency graph of all available packages (whatever version is asked for), by package name: the
\* resolver may have walked through candidates that did not make it into the result
Edge(p, q) == \E k \in 1..Len(p.deps) : ~p.deps[k].neg /\ p.deps[k].n \in Names(q)
NameEdges(u) == {<<u[e[1]].name, u[e[2]].name>> : e \in {<<i, j>> \in (1..Len(u)) \X (1..Len(u)) : i # j /\ Edge(u[i], u[j])}}
\* no cycle: repeatedly removing the packages without outgoing edges leaves nothing
Acyclic(N, E) ==
  FoldLeft(LAMBDA acc, k : {i \in acc : \E j \in acc : <<i, j>> \in E}, N, [k \in 1..Cardinality(N) |-> k]) = {}
OrderBad(univ, res) ==
  /\ Acyclic({univ[k].name : k \in 1..Len(univ)}, NameEdges(univ))
  /\ \E i \in 1..Len(res) : \E k \in 1..Len(res[i].deps) :
        LET c == res[i].deps[k] IN
        /\ ~c.neg /\ ~SatP(res[i], c)
        /\ ~\E j \in 1..(i-1) : SatP(res[j], c)

SoundBad(univ, world, res) ==
  Unsatisfied(world, res)
  \cup (IF SameName(res) THEN {"samename"} ELSE {})
  \cup (IF Twice(res) THEN {"twice"} ELSE {})
  \cup (IF OrderBad(univ, res) THEN {"order"} ELSE {})

(* ---- when success is guaranteed: every needed name has one provider ---- *)
Cands(univ, c) == {p \in univ : c.n \in Names(p)}
NeedSet(univ, world) ==
  FoldLeft(LAMBDA acc, k : acc \cup UNION {UNION {Cands(univ, c) : c \in {x \in Rng(p.deps) : ~x.neg}} : p \in acc},
           UNION {Cands(univ, c) : c \in {x \in Rng(world) : ~x.neg}},
           [k \in 1..Cardinality(univ) |-> k])
\* (defined over need = NeedSet so that callers can share it)
MustSucceed(univ, world, need) ==
  /\ \A p \in univ : p.iif = <<>> /\ Cardinality(Names(p)) = 1 + Len(p.prov)
  /\ \A p \in need : p.tag = ""
  /\ \A c \in Rng(world) : ~c.neg /\ Cardinality(Cands(univ, c)) = 1 /\ \A p \in Cands(univ, c) : SatP(p, c)
  /\ \A q \in need : \A c \in Rng(q.deps) :
        ~c.neg /\ Cardinality(Cands(univ, c)) = 1 /\ \A p \in Cands(univ, c) : SatP(p, c)
  /\ \A p, q \in need : p # q => Names(p) \cap Names(q) = {}

(* ---- install_if, where names are unique, nothing is excluded and every name has a provider: from the ---- *)
(* ---- packages sel, everything they need and what is allowed under tag and has its conditions met by    ---- *)
(* ---- these, leaving out the packages of but                                         ---- *)
Allowed(p, tag) == p.tag = "" \/ p.tag = tag
NeededBy(univ, p) == UNION {Cands(univ, c) : c \in {x \in Rng(p.deps) : ~x.neg}}
Closure(univ, S, but, tag) ==
  FoldLeft(LAMBDA acc, k : acc \cup UNION {NeededBy(univ, p) : p \in acc} \cup {p \in univ : Allowed(p, tag) /\ IifMet(p, acc \ but)},
           S, [k \in 1..Cardinality(univ) |-> k])

(* ---- ranking ---- *)
\* the version under which p offers name
OfferedVer(p, name) ==
  IF p.name = name THEN p.ver
  ELSE LET k == MinOf({j \in 1..Len(p.prov) : p.prov[j].n = name})
       IN IF p.prov[k].v = "" THEN p.ver ELSE p.prov[k].v
CmpVS(s, t) == CmpV(ParseV(s), ParseV(t))
B2I(b) == IF b THEN 1 ELSE 0
\* < 0: p is preferred to q.  chosen: packages selected already, origins: their origins.
RankCmp(p, q, name, tag, chosenIds, chosenNV, origins) ==
  FirstNZ(<< B2I(<<q.name, q.ver>> \in chosenNV) - B2I(<<p.name, p.ver>> \in chosenNV),
             B2I(q.org \in origins) - B2I(p.org \in origins),
             B2I(q.tag = tag) - B2I(p.tag = tag),
             q.prio - p.prio,
             -CmpVS(OfferedVer(p, name), OfferedVer(q, name)),
             -CmpVS(p.ver, q.ver),
             CmpStr(p.name, q.name) >>)
=============================================================================
