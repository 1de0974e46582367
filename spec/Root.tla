---- MODULE Root ----
(* The root filesystem that a database is initialised in, and its configuration files. A root maps paths to nodes  *)
(* [k, perm, c, dev]; permissions include the sticky bit. InitDB is a fixed sequence of steps; it stops at the     *)
(* first that fails. The keyring and the lists are files written whole.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC
CONSTANTS RVariant
RNode(k, perm, c, dev) == [k |-> k, perm |-> perm, c |-> c, dev |-> dev]
RNone == RNode("none", 0, "", 0)
RS(t, p, par, perm, c, dev) == [t |-> t, p |-> p, par |-> par, perm |-> perm, c |-> c, dev |-> dev]
RSteps == <<
  RS("base", "tmp", "", 1023, "", 0), RS("base", "dev", "", 493, "", 0), RS("base", "etc", "", 493, "", 0),
  RS("base", "lib", "", 493, "", 0), RS("base", "proc", "", 365, "", 0), RS("base", "var", "", 493, "", 0),
  RS("dir", "etc/apk", "etc", 493, "", 0), RS("dir", "etc/apk/keys", "etc/apk", 493, "", 0), RS("dir", "lib/apk", "lib", 493, "", 0),
  RS("dir", "lib/apk/db", "lib/apk", 493, "", 0), RS("dir", "var/cache", "var", 493, "", 0), RS("dir", "var/cache/apk", "var/cache", 493, "", 0), RS("dir", "var/cache/misc", "var/cache", 493, "", 0),
  RS("file", "etc/apk/world", "etc/apk", 420, "\n", 0), RS("file", "etc/apk/repositories", "etc/apk", 420, "\n", 0), RS("file", "lib/apk/db/lock", "lib/apk/db", 384, "", 0),
  RS("file", "lib/apk/db/triggers", "lib/apk/db", 420, "", 0), RS("file", "lib/apk/db/installed", "lib/apk/db", 420, "", 0), RS("file", "etc/apk/arch", "etc/apk", 420, "ARCH", 0),
  RS("dev", "dev/zero", "dev", 438, "", 261), RS("dev", "dev/urandom", "dev", 438, "", 265), RS("dev", "dev/null", "dev", 438, "", 259), RS("dev", "dev/random", "dev", 438, "", 264), RS("dev", "dev/console", "dev", 400, "", 1281),
  RS("file", "lib/apk/db/scripts.tar", "lib/apk/db", 420, "EMPTYTAR", 0) >>
RPaths == {RSteps[i].p : i \in DOMAIN RSteps}
RStepOf(p) == RSteps[CHOOSE i \in DOMAIN RSteps : RSteps[i].p = p]
RGet(s, p) == IF p \in DOMAIN s THEN s[p] ELSE RNone
RPut(s, p, n) == (p :> n) @@ s
RIn(s, st) == st.par = "" \/ RGet(s, st.par).k = "dir"
RR(ok, s) == [ok |-> ok, s |-> s]
RContent(st, arch) == IF st.p = "etc/apk/arch" THEN arch ELSE st.c
(* one step on a root *)
RDo(s, st, arch, ignore) ==
  LET n == RGet(s, st.p)
      new == RNode(IF st.t \in {"base", "dir"} THEN "dir" ELSE st.t, st.perm, RContent(st, arch), st.dev) IN
  CASE st.t = "base" ->
         IF n.k = "none" THEN RR(TRUE, RPut(s, st.p, new))
         ELSE IF n.k # "dir" THEN RR(FALSE, s)
         ELSE IF n.perm % 512 # st.perm % 512 THEN (IF RVariant = "touchbase" THEN RR(FALSE, RPut(s, st.p, new)) ELSE RR(FALSE, s))
         ELSE RR(TRUE, s)
    [] st.t = "dir" ->
         IF n.k = "none" THEN (IF RIn(s, st) THEN RR(TRUE, RPut(s, st.p, new)) ELSE RR(FALSE, s))
         ELSE IF n.k = "dir" \/ RVariant = "acceptfile" THEN RR(TRUE, s) ELSE RR(FALSE, s)
    [] st.t = "file" ->
         IF n.k = "none" THEN (IF RIn(s, st) THEN RR(TRUE, RPut(s, st.p, new)) ELSE RR(FALSE, s))
         ELSE IF n.k = "file" THEN RR(TRUE, IF RVariant = "notrunc" /\ st.p = "lib/apk/db/scripts.tar" THEN s ELSE RPut(s, st.p, [n EXCEPT !.c = RContent(st, arch)]))
         ELSE RR(FALSE, s)
    [] OTHER ->
         IF n.k = "none" /\ RIn(s, st) THEN RR(TRUE, RPut(s, st.p, new)) ELSE RR(ignore, s)
(* all of them; without recursion *)
RInit(s, arch, ignore) == FoldLeft(LAMBDA a, st : IF a.ok THEN RDo(a.s, st, arch, ignore) ELSE a, RR(TRUE, s), RSteps)
(* what a root looks like once a database is initialised in it, given what was there before *)
RExactAt(s, old, st, arch, ignore) ==
  LET n == RGet(s, st.p)  o == RGet(old, st.p) IN
  CASE st.t = "base" -> n.k = "dir" /\ n.perm % 512 = st.perm % 512 /\ (o.k = "none" => n.perm = st.perm) /\ (o.k # "none" => n = o)
    [] st.t = "dir" -> n.k = "dir" /\ (o.k = "none" => n.perm = st.perm) /\ (o.k # "none" => n = o)
    [] st.t = "file" -> n.k = "file" /\ n.c = RContent(st, arch) /\ (o.k = "none" => n.perm = st.perm)
    [] OTHER -> \/ n = RNode("dev", st.perm, "", st.dev) /\ o.k = "none"
                \/ ignore /\ n = o
RExact(s, old, arch, ignore) == \A i \in DOMAIN RSteps : RExactAt(s, old, RSteps[i], arch, ignore)
(* --- lists --- *)
(* the order of strings given as sequences of bytes *)
RECURSIVE BLess(_, _)
BLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE BLess(Tail(a), Tail(b))
RSorted(q) == \A i \in 1..Len(q) - 1 : ~BLess(q[i + 1], q[i])
RCount(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
RPermuted(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : RCount(p, p[i]) = RCount(q, p[i])
(* --- keys of a distribution: the branches asked for, the keys of the architecture that are not deprecated yet --- *)
RBranchKeys(rels, v, arch) == LET js == {j \in DOMAIN rels : rels[j].rel = v} IN
  IF js = {} THEN <<>> ELSE LET r == rels[CHOOSE j \in js : \A l \in js : j <= l] IN SelectSeq(r.keys, LAMBDA k : k.arch = arch /\ k.dep # "past")
RKeys(rels, vs, arch) == FoldLeft(LAMBDA a, v : a \o RBranchKeys(rels, v, arch), <<>>, vs)
====
