------------------------------ MODULE Tarball ------------------------------
(* The tarball of a tree: which members it has, and what is in them.        *)
(* An entry e of the source: [p: components, k, perm, uid, gid, data, tg,   *)
(*   maj, min, x: set of <<name, value>>, sum, ino: 0 or inode number].     *)
(* Options o: [sde, ouid, uid, gid, uname, gname, perms: seq of [name, mode,*)
(*   uid, gid, uname, gname], ru, rg: set of <<from, to>>, users, groups:   *)
(*   set of <<id, name>>, sums].                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANT TVariant
PathStr(p) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN p[i] ELSE acc \o "/" \o p[i], "", [i \in 1..Len(p) |-> i])
Look(m, k, d) == LET S == {v \in m : v[1] = k} IN IF S = {} THEN d ELSE (CHOOSE v \in S : TRUE)[2]
\* overrides named with or without a leading slash, the one with it last
OneOverride(o, h, nm) == LET S == {i \in 1..Len(o.perms) : o.perms[i].name = nm} IN
  IF S = {} THEN h ELSE LET x == o.perms[Max(S)] IN [h EXCEPT !.mode = x.mode, !.uid = x.uid, !.gid = x.gid, !.uname = x.uname, !.gname = x.gname]
\* the member of e, if first is the name of an earlier member with the same inode ("" if there is none)
Member(o, e, first) ==
  LET uid1 == Look(o.ru, e.uid, e.uid)  gid1 == Look(o.rg, e.gid, e.gid)
      hard == first # ""
      k == IF hard THEN "hard" ELSE e.k
      h0 == [name |-> PathStr(e.p), k |-> k, mode |-> e.perm, mtime |-> o.sde,
             uid |-> IF o.ouid THEN o.uid ELSE uid1, gid |-> IF o.ouid THEN o.gid ELSE gid1,
             uname |-> IF o.uname # "" THEN o.uname ELSE Look(o.users, uid1, ""), gname |-> IF o.gname # "" THEN o.gname ELSE Look(o.groups, gid1, ""),
             linkname |-> IF hard THEN first ELSE IF k = "link" THEN e.tg ELSE "",
             data |-> IF k = "file" THEN e.data ELSE <<>>, maj |-> IF k = "dev" THEN e.maj ELSE 0, min |-> IF k = "dev" THEN e.min ELSE 0,
             x |-> IF k \in {"file", "dir"} THEN e.x ELSE {}, sum |-> IF o.sums /\ e.k \in {"file", "link"} THEN e.sum ELSE ""]
  IN OneOverride(o, OneOverride(o, h0, h0.name), "/" \o h0.name)
IsPrefixOf(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* A tree is a set of entries.  Any order is fine in which a directory comes *)
(* before what it holds; hard links refer to the first member of the inode. *)
OrderOK(es) == \A i, j \in 1..Len(es) : IsPrefixOf(es[i].p, es[j].p) => i < j
Expected(o, es) ==
  [i \in 1..Len(es) |->
     LET F == {j \in 1..i - 1 : es[i].ino # 0 /\ es[j].ino = es[i].ino /\ es[j].k # "dir"} IN
     Member(o, es[i], IF F = {} \/ es[i].k = "dir" \/ TVariant = "nohard" THEN "" ELSE PathStr(es[Min(F)].p))]
=============================================================================
