-------------------------- MODULE IndexTrustJudge --------------------------
(* r.archives; r.steps: each [set: what each url serves from now on,        *)
(* calls: parallel calls with their results].                               *)
EXTENDS Judge, IndexTrust
Served(r, u, k) == FoldLeft(LAMBDA acc, j : IF \E x \in ToSet(r.steps[j].set) : x.u = u
                                           THEN LET x == CHOOSE y \in ToSet(r.steps[j].set) : y.u = u IN Append(acc, x) ELSE acc, <<>>, [j \in 1..k |-> j])
Call(c) == [keys |-> ToSet(c.keys), ignore |-> c.ignore, exempt |-> ToSet(c.exempt)]
CallJ(r, k, c) ==
  LET cc == Call(c)
      past(u) == Served(r, u, k)
      cur(u) == past(u)[Len(past(u))]
      missing(u) == cur(u).net = "missing"
      sound(g) == \E s \in ToSet(past(g.u)) : s.net # "missing" /\ g.content \in Contents(r.archives[s.a], cc, g.u)
      must(u) == cur(u).net = "missing" \/ (cur(u).net = "ok" /\ Plainly(r.archives[cur(u).a], cc, u))
  IN IF c.ok
     THEN (IF \A g \in ToSet(c.got) : sound(g) THEN {} ELSE {"untrusted-index-returned"})
          \cup (IF \E u \in ToSet(c.urls) : ~missing(u) /\ \A g \in ToSet(c.got) : g.u # u THEN {"index-left-out"} ELSE {})
     ELSE IF ~c.cancel /\ \A u \in ToSet(c.urls) : must(u) THEN {"valid-index-refused"} ELSE {}
JBad(r) == UNION {UNION {CallJ(r, k, r.steps[k].calls[j]) : j \in 1..Len(r.steps[k].calls)} : k \in 1..Len(r.steps)}
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
