------------------------------- MODULE RankMC -------------------------------
(* Laws of the candidate ranking: RankCmp is a total preorder for every     *)
(* requested tag and every set of already selected packages and origins,    *)
(* and its keys have the documented precedence.                             *)
EXTENDS Resolver, FiniteSetsExt
Mk(n, v, pv, org, prio, tag) ==
  [id |-> 0, name |-> n, ver |-> v, prov |-> IF pv = "-" THEN <<>> ELSE <<[n |-> "a", v |-> pv]>>,
   deps |-> <<>>, org |-> org, prio |-> prio, tag |-> tag, iif |-> <<>>]
Pks == TLCEval({Mk("a", v, "-", o, p, t) : v \in {"1", "2"}, o \in {"", "o"}, p \in {0, 1}, t \in {"", "e"}}
       \cup {Mk("b", "1", pv, o, 0, t) : pv \in {"", "2"}, o \in {"", "o"}, t \in {"", "e"}})
Sel == TLCEval({{}, {<<"a", "1">>}, {<<"a", "2">>, <<"b", "1">>}})
Org == TLCEval({{}, {"o"}})
CmpTab == TLCEval([vs \in {"1", "2"} |-> [vt \in {"1", "2"} |-> CmpV(ParseV(vs), ParseV(vt))]])
FastCmp(s, t) == CmpTab[s][t]            \* replaces CmpVS (see the configuration)
VARIABLES rp, rq, rr, rtag, rsel, rorg
Init == rp \in Pks /\ rq \in Pks /\ rr = rp /\ rtag \in {"", "e"} /\ rsel \in Sel /\ rorg \in Org
Next == rr = rp /\ rr' \in Pks /\ UNCHANGED <<rp, rq, rtag, rsel, rorg>>
R(p, q) == RankCmp(p, q, "a", rtag, {}, rsel, rorg)
Antisym == R(rp, rq) = -R(rq, rp) /\ (R(rp, rq) = 0 => rp.name = rq.name /\ rp.ver = rq.ver)
Transitive == (R(rp, rq) <= 0 /\ R(rq, rr) <= 0) => R(rp, rr) <= 0
TagFirst == rsel = {} /\ rorg = {} /\ rp.tag = rtag /\ rq.tag # rtag => R(rp, rq) < 0
SelectedFirst == <<rp.name, rp.ver>> \in rsel /\ <<rq.name, rq.ver>> \notin rsel => R(rp, rq) < 0
=============================================================================
