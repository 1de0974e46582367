------------------------------ MODULE RetryMC -------------------------------
(* Installations that fail on the way and are tried again: packages 1..m    *)
(* are installed, then an installation of the rest fails after any number   *)
(* of entries, then the packages in `again` are installed through the same  *)
(* or a new APK object.                                                     *)
EXTENDS Install
CONSTANT RFull
VARIABLES uni, cut, m, again, fresh
rvars == <<uni, cut, m, again, fresh>>
RNames == <<"a", "b", "c">>
Mk(n, cs, ln, o, rp) == [name |-> RNames[n], ver |-> "1", sum |-> "Q1", org |-> o, repl |-> rp, sc |-> <<>>, tr |-> <<>>,
   es |-> (IF ln THEN <<[p |-> <<"l">>, k |-> "link", c |-> "t", perm |-> 0, tg |-> <<"t">>, x |-> ""]>> ELSE <<>>)
          \o [j \in 1..Len(cs) |-> [p |-> <<"f">>, k |-> "reg", c |-> cs[j], perm |-> 420, tg |-> <<>>, x |-> ""]]]
Others(n) == SelectSeq(RNames, LAMBDA x : x # RNames[n])
Repls(n) == {<<>>, <<Others(n)[1]>>} \cup (IF RFull THEN {<<Others(n)[2]>>, Others(n)} ELSE {})
RPkgs(n) == {Mk(n, cs, ln, o, rp) : cs \in {<<>>, <<"x">>} \cup (IF n > 1 THEN {<<"y">>} ELSE {}), ln \in {n # 1}, o \in {"", "o"}, rp \in Repls(n)}
Whole(st, todo) == LET ss == States("fs", uni, st, Flat(uni, todo, 1)) IN ss[Len(ss)]
Rest == [j \in 1..3 - m |-> m + j]
Before == Whole(IState(NoRoot, NoRoot, {}, NoRoot), [j \in 1..m |-> j])
Attempt == States("fs", uni, [Before EXCEPT !.lst = <<>>], Flat(uni, Rest, 1))
Left == Failed(Attempt[cut + 1], Before, m)
From == IF fresh THEN IState(Left.rt, NoRoot, {}, NoRoot) ELSE Left
Sub == SelectSeq(Rest, LAMBDA i : i \in again)
End == Whole(From, Sub)
Plain == Whole([Before EXCEPT !.lst = <<>>], Sub)    \* without the attempt
RInit == /\ \E x \in RPkgs(1), y \in RPkgs(2), z \in RPkgs(3) : uni = <<x, y, z>>
         /\ m = -1 /\ cut = 0 /\ again = {} /\ fresh = FALSE
RNext == /\ m = -1 /\ uni' = uni
         /\ \E n \in 0..1, k \in 0..6, ag \in SUBSET (1..3), fr \in BOOLEAN :
              /\ ag \subseteq n + 1..3 /\ m' = n /\ again' = ag /\ fresh' = fr /\ cut' = k
              /\ LET bef == Whole(IState(NoRoot, NoRoot, {}, NoRoot), [j \in 1..n |-> j])
                     at == States("fs", uni, bef, Flat(uni, [j \in 1..3 - n |-> n + j], 1)) IN k < Len(at) /\ at[k + 1].ok
RFiles(st, i) == {l.p : l \in {x \in Listed(st, i) : x.k = "reg"}}
RLinks(st, i) == {l.p : l \in {x \in Listed(st, i) : x.k = "link"}}
RCont(i) == (CHOOSE e \in ToSet(uni[i].es) : e.k = "reg").c
Laws == m = -1 \/
  \* what is not installed owns nothing
  /\ \A q \in DOMAIN From.own : From.own[q] \in 0..m
  \* tried again: like the first time (a file of a package installed before may have been overwritten, and get another owner)
  /\ (m = 0 /\ again = 1..3 /\ End.ok /\ ~fresh) => (Plain.ok /\ End.rt = Plain.rt /\ \A i \in m + 1..3 : Listed(End, i) = Listed(Plain, i))
  /\ (m = 0 /\ again = 1..3 /\ Plain.ok /\ ~fresh) => End.ok
  /\ End.ok =>
       \* whoever is said to own a file has its contents there
       /\ \A q \in DOMAIN End.own : (End.own[q] # 0 /\ q \notin End.lo) => End.rt[q].c = RCont(End.own[q])
       \* what is installed and in the root is listed once among them, unless somebody from before has it
       /\ \A i \in again : \A e \in ToSet(uni[i].es) : LET by == {j \in again : e.p \in RFiles(End, j) \cup RLinks(End, j)} IN
            Cardinality(by) = 1 \/ (by = {} /\ m = 1 /\ \E x \in ToSet(uni[1].es) : x.p = e.p)
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
