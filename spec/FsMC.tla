-------------------------------- MODULE FsMC -------------------------------
(* All histories over a small alphabet: the specification itself keeps the  *)
(* tree a tree, lets failed operations change nothing, and shares hard      *)
(* linked files.  Also the source of the histories replayed in the code.    *)
EXTENDS Fs, Json, IOUtils
CONSTANTS FLen, FNodes, FSet
VARIABLES fst, fhist, flast
vars == <<fst, fhist, flast>>
P == {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>}
PQ == P \cup {<<"a", "..", "b">>}
T(s, ab, p) == [s |-> s, abs |-> ab, p |-> p]
Targets == {T("a", FALSE, <<"a">>), T("../b", FALSE, <<"..", "b">>), T("/a", TRUE, <<"", "a">>)}
Fl(r, w, c, e, t, a) == [r |-> r, w |-> w, creat |-> c, excl |-> e, trunc |-> t, app |-> a]
TreeOps ==
  {[o |-> "mkdir", p |-> p, perm |-> 448] : p \in PQ} \cup {[o |-> "mkdirall", p |-> p, perm |-> 493] : p \in {<<"a", "b">>, <<"b", "a">>}}
  \cup {[o |-> "write", p |-> p, b |-> <<1>>, perm |-> 420] : p \in PQ} \cup {[o |-> "symlink", p |-> p, tg |-> t] : p \in P, t \in Targets}
  \cup {[o |-> "link", old |-> p, p |-> q] : p \in {<<"a">>, <<"b">>, <<"b", "a">>}, q \in {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}}
  \cup {[o |-> "remove", p |-> p] : p \in P} \cup {[o |-> "chmod", p |-> p, perm |-> 256] : p \in {<<"a">>, <<"a", "b">>}}
  \cup {[o |-> "mknod", p |-> p, perm |-> 384, dev |-> 259] : p \in {<<"b">>}}
FileOps ==
  {[o |-> "write", p |-> <<"a">>, b |-> <<1, 2, 3>>, perm |-> 420], [o |-> "link", old |-> <<"a">>, p |-> <<"b">>], [o |-> "remove", p |-> <<"a">>]}
  \cup {[o |-> "open", p |-> p, perm |-> 384, fl |-> f] : p \in {<<"a">>, <<"b">>},
         f \in {Fl(TRUE, FALSE, FALSE, FALSE, FALSE, FALSE), Fl(TRUE, TRUE, TRUE, FALSE, FALSE, FALSE), Fl(FALSE, TRUE, TRUE, FALSE, TRUE, FALSE),
                Fl(TRUE, TRUE, TRUE, TRUE, FALSE, FALSE), Fl(FALSE, TRUE, FALSE, FALSE, FALSE, TRUE)}}
  \cup {[o |-> "read", i |-> i, k |-> 2] : i \in 1..2} \cup {[o |-> "readat", i |-> 1, k |-> 2, off |-> 2]}
  \cup {[o |-> "hwrite", i |-> i, b |-> <<7, 8>>] : i \in 1..2} \cup {[o |-> "close", i |-> 1]}
  \cup {[o |-> "seek", i |-> i, off |-> o, wh |-> w] : i \in 1..2, o \in {-1, 4}, w \in {0, 2}}
FOps == TLCEval(IF FSet = "tree" THEN TreeOps ELSE FileOps)
FInit == fst = Empty0 /\ fhist = <<>> /\ flast = [errs |-> {""}, same |-> TRUE]
FNext == Len(fhist) < FLen /\ \E op \in FOps : LET x == Fapply(fst, op) IN
           /\ "any" \notin x.errs /\ Len(x.st.n) <= FNodes
           /\ fst' = x.st /\ fhist' = Append(fhist, op)
           /\ flast' = [errs |-> x.errs, same |-> (x.st = fst)]
FView == <<fst, Len(fhist), flast>>
Ids(st) == 1..Len(st.n)
RECURSIVE Reach(_, _)
Reach(n, S) == LET R == S \cup UNION {{en[2] : en \in n[i].e} : i \in S} IN IF R = S THEN S ELSE Reach(n, R)
Below(n, i) == Reach(n, {en[2] : en \in n[i].e})
TreeOK == \A i \in Ids(fst) :
   /\ \A en \in fst.n[i].e : en[2] \in Ids(fst) /\ en[1] \notin {"", ".", ".."}
   /\ fst.n[i].k # "dir" => fst.n[i].e = {}
   /\ Cardinality(Names(fst.n[i])) = Cardinality(fst.n[i].e)
   /\ fst.n[i].k = "dir" => /\ i \notin Below(fst.n, i)
                            /\ Cardinality({<<j, en[1]>> : j \in Ids(fst), en \in {}} \cup UNION {{<<j, en[1]>> : en \in {z \in fst.n[j].e : z[2] = i}} : j \in Ids(fst)}) <= 1
FailSame == ("" \notin flast.errs) => flast.same
\* nothing but files is ever left without a name while... a directory that is not empty has a name
NoOrphans == \A i \in Ids(fst) : (fst.n[i].k = "dir" /\ fst.n[i].e # {}) => i \in Reach(fst.n, {1})
\* an existing path and the path it canonically stands for lead to the same node
Canonical == \A p \in PQ : LET x == Resolve(fst.n, p, TRUE) IN
   x.r = "ok" => LET y == Resolve(fst.n, x.names, FALSE) IN y.r = "ok" /\ y.node = x.node /\ y.names = x.names
\* a relative target is looked up from the directory of the link: reading through the link and reading the target there agree
LinkRel == \A p \in P : LET x == Resolve(fst.n, p, FALSE) IN
   (x.r = "ok" /\ fst.n[x.node].k = "link" /\ ~fst.n[x.node].tg.abs) =>
     LET y == Resolve(fst.n, p, TRUE)  z == Resolve(fst.n, Front(x.names) \o fst.n[x.node].tg.p, TRUE)
     IN (y.r = "loop") \/ (y.r = z.r /\ (y.r = "ok" => y.node = z.node))
SharedOK == \A p, q \in P : LET x == Resolve(fst.n, p, TRUE)  y == Resolve(fst.n, q, TRUE) IN
   (x.r = "ok" /\ y.r = "ok" /\ x.node = y.node /\ fst.n[x.node].k = "file") =>
     LET s == Fapply(fst, [o |-> "write", p |-> p, b |-> <<9, 9>>, perm |-> 0]).st
     IN Fapply(s, [o |-> "readfile", p |-> q]).val = <<9, 9>>
Generate == ndJsonSerialize(IOEnv.GENOUT \o "." \o ToString(TLCGet("distinct")), <<fhist>>)
GenPrint == fhist = <<>> \/ PrintT("GEN " \o ToJson(fhist))
=============================================================================
