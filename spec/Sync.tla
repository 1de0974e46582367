-------------------------------- MODULE Sync --------------------------------
(* Bringing a root to its world: what a synchronisation installs, given the  *)
(* packages installed before (sequence of packages, see Resolver) and the    *)
(* resolution of the world (likewise).                                       *)
EXTENDS Resolver
CONSTANT SVariant
SHas(inst, p) == \E i \in DOMAIN inst : inst[i].name = p.name /\ (SVariant = "byver" => inst[i].ver = p.ver)
SMissing(inst, res) == IF SVariant = "all" THEN res ELSE SelectSeq(res, LAMBDA p : ~SHas(inst, p))
\* a package to be there excludes one that is installed
SExcluded(inst, res) == SVariant # "conflict" /\ \E p \in Rng(res) : \E c \in Rng(p.deps) : c.neg /\ \E q \in Rng(inst) : q.name # p.name /\ SatP(q, c)
\* bad: packages that cannot be had, or are not what the index promises
SCan(inst, res, bad) == ~SExcluded(inst, res) /\ \A p \in Rng(SMissing(inst, res)) : p.id \notin bad
SAfter(inst, res, bad) ==
  IF SCan(inst, res, bad) THEN inst \o SMissing(inst, res)
  ELSE IF SVariant = "partial" /\ ~SExcluded(inst, res) THEN inst \o SelectSeq(SMissing(inst, res), LAMBDA p : p.id \notin bad)
  ELSE inst
=============================================================================
