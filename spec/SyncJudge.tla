------------------------------ MODULE SyncJudge ------------------------------
(* Oracle for C24 over recorded synchronisations of real roots.              *)
EXTENDS Judge, Sync
SPk(r, ids) == [k \in DOMAIN ids |-> IF ids[k] = 0 THEN [id |-> 0, name |-> "?", ver |-> "?", prov |-> <<>>, deps |-> <<>>, org |-> "", prio |-> 0, tag |-> "", iif |-> <<>>] ELSE r.univ[ids[k]]]
JBad(r) ==
  LET pub == {r.univ[i] : i \in ToSet(r.pub)}
      res == SPk(r, r.res)  calc == SPk(r, r.calc)  inst == SPk(r, r.before)  after == SPk(r, r.after)
      bad == ToSet(r.bad)  soft == ToSet(r.soft)    \* soft: these may have been cached by an attempt before
      can == r.rok /\ SCan(inst, res, bad)
      all == can /\ (\A p \in Rng(res) : p.id \notin bad \cup soft) /\ (\A p \in Rng(SMissing(inst, res)) : p.name \notin ToSet(r.stuck))
      \* an attempt that failed leaves files, but nothing that is not to be installed
      want == IF can THEN inst \o SMissing(inst, res) ELSE inst
  IN (IF r.rok THEN {"resolution: " \o x : x \in SoundBad(SetToSeq(pub), r.world, res)} ELSE {})
     \cup (IF r.rok /\ ~(ToSet(r.res) \subseteq ToSet(r.pub)) THEN {"resolved to a package that is not offered"} ELSE {})
     \cup (IF ~r.rok /\ ~r.down /\ (r.world = <<>> \/ MustSucceed(pub, r.world, NeedSet(pub, r.world))) THEN {"no resolution"} ELSE {})
     \cup (IF ~r.clean THEN {"resolving changed the root"} ELSE {})
     \cup (IF r.open # 0 THEN {"a download was left open"} ELSE {})
     \cup (IF r.cok /\ (~r.rok \/ r.calc # r.cwant) THEN {"calculated something else"} ELSE {})
     \cup (IF ~r.cok /\ r.rok /\ bad \cup soft = {} THEN {"calculation failed"} ELSE {})
     \cup (IF r.fok /\ ~can THEN {"succeeded though it cannot"} ELSE {})
     \cup (IF ~r.fok /\ all THEN {"failed"} ELSE {})
     \cup (IF r.fok /\ can /\ r.after # [k \in DOMAIN want |-> want[k].id] THEN {"installed something else"} ELSE {})
     \cup (IF ~r.fok /\ r.after # r.before THEN {"failed but changed the database"} ELSE {})
     \cup (IF r.fok /\ r.files # r.after THEN {"files are not those of the installed packages"} ELSE {})
     \cup (IF ~(ToSet(r.extra) \subseteq ToSet(r.left) \cup (IF r.fok THEN {} ELSE {p.name : p \in Rng(res)})) THEN {"files of a package nobody asked for"} ELSE {})
     \cup (IF r.fok /\ can /\ SMissing(inst, res) = <<>> /\ ~r.same THEN {"nothing to do, but the root changed"} ELSE {})
     \cup (IF ~(ToSet(r.reqs) \subseteq ToSet(r.res)) THEN {"fetched a package that was not asked for"} ELSE {})
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
