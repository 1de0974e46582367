------------------------------- MODULE OwnMC --------------------------------
(* All sequences of up to three packages with one or two paths in common:   *)
(* the laws of ownership, stated without the step function.                 *)
EXTENDS Install, Json
CONSTANT OFull
VARIABLE uni
ONames == <<"a", "b", "c">>
Cs == {"", "x", "y"}          \* "": does not carry the file
Mk(n, c1, c2, o, rp) == [name |-> ONames[n], ver |-> "1", sum |-> "Q1", org |-> o, repl |-> rp, sc |-> <<>>, tr |-> <<>>,
   es |-> (IF c1 = "" THEN <<>> ELSE <<[p |-> <<"f">>, k |-> "reg", c |-> c1, perm |-> 420, tg |-> <<>>, x |-> ""]>>) \o (IF c2 = "" THEN <<>> ELSE <<[p |-> <<"g">>, k |-> "reg", c |-> c2, perm |-> 420, tg |-> <<>>, x |-> ""]>>)]
Others(n) == SelectSeq(ONames, LAMBDA x : x # ONames[n])
Repls(n) == {<<>>, <<Others(n)[1]>>, <<Others(n)[2]>>, Others(n)}
PkgSet(n) == {Mk(n, c1, c2, o, rp) : c1 \in Cs, c2 \in IF OFull THEN Cs ELSE {""}, o \in {"", "o"}, rp \in Repls(n)}
Blank(n) == Mk(n, "", "", "", <<>>)
OInit == IF OFull THEN \E x \in PkgSet(1), y \in PkgSet(2) : uni = <<x, y, Blank(3)>>
         ELSE \E x \in PkgSet(1), y \in PkgSet(2), z \in PkgSet(3) : uni = <<x, y, z>>
ONext == FALSE /\ uni' = uni
Fin(u, n) == LET ss == States("fs", u, IState(NoRoot, NoRoot, {}, NoRoot), Flat(u, [j \in 1..n |-> j], 1)) IN ss[Len(ss)]
ContOf(pk, q) == LET S == {j \in 1..Len(pk.es) : pk.es[j].p = q} IN IF S = {} THEN "" ELSE pk.es[CHOOSE j \in S : TRUE].c
PathsOf(u, n) == UNION {{u[i].es[j].p : j \in 1..Len(u[i].es)} : i \in 1..n}
Laws ==
  LET st == Fin(uni, 3) IN
  IF st.ok THEN
    /\ DOMAIN st.rt = PathsOf(uni, 3) /\ DOMAIN st.own = PathsOf(uni, 3)
    /\ \A q \in DOMAIN st.rt :
       LET w == st.own[q]  car == {i \in 1..3 : ContOf(uni[i], q) # ""} IN
       /\ w \in car /\ st.rt[q].c = ContOf(uni[w], q)
       \* listed once, by the owner
       /\ {i \in 1..3 : \E l \in Listed(st, i) : l.p = q} = {w}
       \* everybody with other contents has a reason to give way, to the owner or to one it gave way to
       /\ \A i \in car : ContOf(uni[i], q) # st.rt[q].c =>
            \E j, h \in car : ContOf(uni[h], q) = ContOf(uni[i], q) /\ ContOf(uni[j], q) # ContOf(uni[i], q)
              /\ (Replaces(uni[j], uni[h]) \/ (j > h /\ uni[h].org # "" /\ uni[h].org = uni[j].org))
       \* all the same contents: the first keeps it
       /\ (\A i, j \in car : ContOf(uni[i], q) = ContOf(uni[j], q)) => w = Min(car)
  ELSE \* some package met other contents without a reason
    \E q \in PathsOf(uni, 3) : \E i, j \in 1..3 : i < j /\ ContOf(uni[i], q) # "" /\ ContOf(uni[j], q) # "" /\ ContOf(uni[i], q) # ContOf(uni[j], q)
      /\ ~Replaces(uni[j], uni[i]) /\ ~Replaces(uni[i], uni[j]) /\ ~(uni[i].org # "" /\ uni[i].org = uni[j].org)
GenOwn == PrintT("GEN " \o ToJson([u |-> [n \in 1..3 |-> [c1 |-> ContOf(uni[n], <<"f">>), c2 |-> ContOf(uni[n], <<"g">>), o |-> uni[n].org, r |-> uni[n].repl]]]))
=============================================================================
