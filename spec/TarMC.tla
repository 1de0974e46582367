------------------------------- MODULE TarMC -------------------------------
(* A writer that walks a tree in any parent-first order and emits members:  *)
(* the archive read back is the tree.  All small trees and options.         *)
EXTENDS Tarball, Json, IOUtils
CONSTANTS TPaths
VARIABLES ttree, topt, tout
tvars == <<ttree, topt, tout>>
AllP == << <<"a">>, <<"a", "b">>, <<"a", "c">>, <<"d">> >>
Ps == {AllP[i] : i \in 1..TPaths}
En(p, k, ino) == [p |-> p, k |-> k, perm |-> IF k = "dir" THEN 493 ELSE 420, uid |-> IF Len(p) = 1 \/ ino # 0 \/ k = "link" THEN 0 ELSE 7, gid |-> 0, data |-> IF k = "file" THEN <<IF ino # 0 THEN 0 ELSE Len(p), ino>> ELSE <<>>,
                  tg |-> IF k = "link" THEN "a" ELSE "", maj |-> 0, min |-> 0, x |-> {}, sum |-> "", ino |-> ino]
Kinds == {<<"dir", 0>>, <<"file", 0>>, <<"file", 5>>, <<"link", 0>>}
Trees == {T \in UNION {{ {En(p, f[p][1], f[p][2]) : p \in S} : f \in [S -> Kinds]} : S \in SUBSET Ps} :
           \A e \in T : \A n \in 1..Len(e.p) - 1 : \E d \in T : d.p = SubSeq(e.p, 1, n) /\ d.k = "dir"}
Ov(nm) == [name |-> nm, mode |-> 256, uid |-> 9, gid |-> 9, uname |-> "o", gname |-> "g"]
Opt0 == [sde |-> 5, ouid |-> FALSE, uid |-> 0, gid |-> 0, uname |-> "", gname |-> "", perms |-> <<>>, ru |-> {}, rg |-> {}, users |-> {<<0, "root">>, <<7, "u">>, <<8, "v">>}, groups |-> {}, sums |-> FALSE]
Opts == {Opt0, [Opt0 EXCEPT !.ouid = TRUE, !.uid = 3], [Opt0 EXCEPT !.perms = <<Ov("a/b")>>], [Opt0 EXCEPT !.perms = <<Ov("/d")>>, !.uname = "z"], [Opt0 EXCEPT !.ru = {<<7, 8>>}]}
TInit == /\ ttree \in Trees /\ topt \in Opts /\ tout = <<>>
TNext == \E e \in ttree : /\ \A i \in 1..Len(tout) : tout[i] # e
                          /\ \A d \in ttree : IsPrefixOf(d.p, e.p) => \E i \in 1..Len(tout) : tout[i] = d
                          /\ tout' = Append(tout, e) /\ UNCHANGED <<ttree, topt>>
Done == Len(tout) = Cardinality(ttree)
A == Expected(topt, tout)
Once == Done => {m.name : m \in ToSet(A)} = {PathStr(e.p) : e \in ttree} /\ Len(A) = Cardinality(ttree)
Parents == OrderOK(tout)
\* extracting: a hard link has the data of the member it names, which came before
Extract(i) == IF A[i].k = "hard" THEN LET J == {j \in 1..i - 1 : A[j].name = A[i].linkname} IN IF J = {} THEN <<"dangling">> ELSE A[Min(J)].data ELSE A[i].data
Faithful == \A i \in 1..Len(A) : tout[i].k = "file" => Extract(i) = tout[i].data
OneBody == \A i, j \in 1..Len(A) : (i # j /\ tout[i].ino # 0 /\ tout[i].ino = tout[j].ino) => "hard" \in {A[i].k, A[j].k}
\* what no override names is as it is in the tree
Exact == \A i \in 1..Len(A) : LET nm == A[i].name  hit == \E k \in 1..Len(topt.perms) : topt.perms[k].name \in {nm, "/" \o nm} IN
   IF hit THEN A[i].mode = 256 /\ A[i].uid = 9 ELSE A[i].mode = tout[i].perm /\ (~topt.ouid /\ topt.ru = {} => A[i].uid = tout[i].uid)
GenPrint == tout # <<>> \/ PrintT("GEN " \o ToJson([tree |-> SetToSeq(ttree), opt |-> topt]))
=============================================================================
