---- MODULE RootJudge ----
(* Judges histories of calls on a real root. A record has the views of the root before the first call and after each *)
(* call (what is not one of the paths of Root is judged to stay as it is), and for each call what was asked, whether *)
(* an injected failure struck, and whether the call reported success.                                               *)
EXTENDS Root, Judge
ViewOf(v) == [p \in {v[i].p : i \in DOMAIN v} |-> LET n == v[CHOOSE i \in DOMAIN v : v[i].p = p] IN RNode(n.k, n.perm, n.c, n.dev)]
Same(s, t, except) == \A p \in (DOMAIN s \cup DOMAIN t) \ except : RGet(s, p) = RGet(t, p)
KeyPath(n) == "etc/apk/keys/" \o n
KeysGot(s, t, ks) == \A i \in DOMAIN ks : LET n == RGet(t, KeyPath(ks[i].name)) IN n.k = "file" /\ n.c = ks[i].body /\ (RGet(s, KeyPath(ks[i].name)).k = "none" => n.perm = 420)
(* a key may be whole, as before, or, when writing failed, anything *)
KeysMaybe(s, t, ks, fired) == \A i \in DOMAIN ks : LET n == RGet(t, KeyPath(ks[i].name)) IN n = RGet(s, KeyPath(ks[i].name)) \/ (n.k = "file" /\ (fired \/ n.c = ks[i].body))
KeyNames(ks) == {KeyPath(ks[i].name) : i \in DOMAIN ks}
BadInit(c, s, t) ==
  LET ks == IF c.vs = <<>> THEN <<>> ELSE RKeys(c.rels, c.vs, c.arch)
      may == RInit(s, c.archc, c.ignore)
      netok == c.vs = <<>> \/ (c.relok /\ \A i \in DOMAIN ks : ks[i].ok) IN
     (IF ~Same(s, t, RPaths \cup KeyNames(ks)) THEN {"touches other files"} ELSE {})
  \cup (IF c.ok /\ ~RExact(t, s, c.archc, c.ignore) THEN {"not as documented"} ELSE {})
  \cup (IF c.ok /\ ~may.ok THEN {"conflict accepted"} ELSE {})
  \cup (IF c.ok /\ ~netok THEN {"missing keys accepted"} ELSE {})
  \cup (IF c.ok /\ netok /\ ~KeysGot(s, t, ks) THEN {"keys"} ELSE {})
  \cup (IF ~c.ok /\ ~c.fired /\ may.ok /\ netok THEN {"fails for no reason"} ELSE {})
  \cup (IF ~c.ok /\ ~KeysMaybe(s, t, ks, c.fired) THEN {"partial keys"} ELSE {})
  \cup (IF \E i \in 1..6 : LET o == RGet(s, RSteps[i].p) IN o.k # "none" /\ RGet(t, RSteps[i].p) # o THEN {"base directory changed"} ELSE {})
  \cup (IF ~c.ok /\ \E i \in DOMAIN RSteps : LET st == RSteps[i]  o == RGet(s, st.p)  n == RGet(t, st.p) IN
            ~(n = o \/ RExactAt(t, s, st, c.archc, FALSE) \/ (c.fired /\ st.t = "file" /\ n.k = "file" /\ o.k \in {"none", "file"})) THEN {"partial state"} ELSE {})
WritesFile(c, s, t, p, good) ==
     (IF ~Same(s, t, {p}) THEN {"touches other files"} ELSE {})
  \cup (IF c.ok /\ ~good THEN {"not written"} ELSE {})
  \cup (IF ~c.ok /\ ~c.fired /\ RGet(s, "etc/apk").k = "dir" /\ RGet(s, p).k \in {"none", "file"} THEN {"fails for no reason"} ELSE {})
BadKeys(c, s, t) ==
     (IF ~Same(s, t, KeyNames(c.ks) \cup {"etc", "etc/apk", "etc/apk/keys"}) THEN {"touches other files"} ELSE {})
  \cup (IF \E p \in {"etc", "etc/apk", "etc/apk/keys"} : RGet(s, p).k # "none" /\ RGet(s, p) # RGet(t, p) THEN {"directory changed"} ELSE {})
  \cup (IF c.ok /\ \E i \in DOMAIN c.ks : ~c.ks[i].ok THEN {"missing keys accepted"} ELSE {})
  \cup (IF c.ok /\ ~KeysGot(s, t, c.ks) THEN {"keys"} ELSE {})
  \cup (IF ~KeysMaybe(s, t, c.ks, c.fired) THEN {"partial keys"} ELSE {})
  \cup (IF ~c.ok /\ ~c.fired /\ (\A i \in DOMAIN c.ks : c.ks[i].ok /\ RGet(s, KeyPath(c.ks[i].name)).k \in {"none", "file"})
           /\ (\A p \in {"etc", "etc/apk", "etc/apk/keys"} : RGet(s, p).k \in {"none", "dir"}) THEN {"fails for no reason"} ELSE {})
BadList(c) == LET want == {i \in DOMAIN RSteps : RSteps[i].t # "base"} IN
  IF Len(c.list) = Cardinality(want) /\ \A i \in want : \E j \in DOMAIN c.list : LET e == c.list[j] IN e.p = RSteps[i].p /\ e.k = RSteps[i].t /\ e.perm = RSteps[i].perm THEN {} ELSE {"list of initial files"}
(* what was set last; <<>> when nothing is known *)
LastSet(r, i, o) == LET js == {j \in 1..i - 1 : r.calls[j].o \in {o, "initdb"}} IN
  IF js = {} THEN <<>> ELSE LET j == CHOOSE j \in js : \A l \in js : l <= j IN IF r.calls[j].o = o /\ r.calls[j].ok THEN <<r.calls[j].l>> ELSE <<>>
BadCall(r, i) == LET c == r.calls[i]  s == ViewOf(r.views[i])  t == ViewOf(r.views[i + 1]) IN
   (IF c.args THEN {} ELSE {"caller's list changed"}) \cup
   CASE c.o = "initdb" -> BadInit(c, s, t)
     [] c.o = "setworld" -> WritesFile(c, s, t, "etc/apk/world", RPermuted(c.lines, c.lb) /\ RSorted(c.lines))
     [] c.o = "setrepos" -> IF c.l = <<>> THEN (IF c.ok \/ ~Same(s, t, {}) THEN {"empty list"} ELSE {}) ELSE WritesFile(c, s, t, "etc/apk/repositories", c.lines = c.lb)
     [] c.o = "keyring" -> BadKeys(c, s, t)
     [] c.o = "list" -> BadList(c)
     [] OTHER -> LET w == LastSet(r, i, IF c.o = "getworld" THEN "setworld" ELSE "setrepos") IN
          (IF ~Same(s, t, {}) THEN {"reading writes"} ELSE {}) \cup
          (IF w = <<>> THEN {} ELSE IF ~c.ok THEN (IF c.fired \/ \E j \in 1..i : r.calls[j].long THEN {} ELSE {"unreadable"}) ELSE IF c.o = "getworld" THEN (IF RPermuted(c.got, w[1]) THEN {} ELSE {"world reads differently"}) ELSE IF c.got = w[1] THEN {} ELSE {"repositories read differently"})
JBad(r) == UNION {BadCall(r, i) : i \in DOMAIN r.calls}
JInv == JReport(ji, JBad(Recs[ji]))
====
