------------------------------- MODULE SyncMC -------------------------------
(* Histories of a root: repositories are republished, the world edited, and  *)
(* the root synchronised, with some packages unavailable or not as promised. *)
EXTENDS Sync
CONSTANTS SPubs, SSyncs
SP(i, n, v, d) == [id |-> i, name |-> n, ver |-> v, prov |-> <<>>, deps |-> d, org |-> "", prio |-> 0, tag |-> "", iif |-> <<>>]
SC(n, neg) == [neg |-> neg, n |-> n, op |-> "", v |-> "", pin |-> ""]
\* a needs b; c must not be there together with b; the versions are published one after the other
SBuilds == TLCEval(<<SP(1, "a", "1", <<SC("b", FALSE)>>), SP(2, "b", "1", <<>>), SP(3, "c", "1", <<SC("b", TRUE)>>), SP(4, "a", "2", <<>>), SP(5, "b", "2", <<>>), SP(6, "b", "1", <<>>), SP(7, "c", "2", <<>>)>>)
VARIABLES spub, sworld, sinst, shist, snum
SVars == <<spub, sworld, sinst, shist, snum>>
SOf(n) == CHOOSE i \in spub : SBuilds[i].name = n
SInit == spub = {1, 2, 3} /\ sworld = <<>> /\ sinst = <<>> /\ shist = "start" /\ snum = [pubs |-> 0, syncs |-> 0]
SPublish == snum.pubs < SPubs /\ \E i \in DOMAIN SBuilds : i \notin spub
   /\ spub' = {j \in spub : SBuilds[j].name # SBuilds[i].name} \cup {i} /\ snum' = [snum EXCEPT !.pubs = @ + 1] /\ shist' = "publish" /\ UNCHANGED <<sworld, sinst>>
SEdit == snum.syncs < SSyncs /\ \E w \in {<<SC("a", FALSE)>>, <<SC("c", FALSE)>>, <<SC("b", FALSE), SC("a", FALSE)>>, <<SC("a", FALSE), SC("c", FALSE)>>, <<SC("c", FALSE), SC("b", TRUE)>>} :
   sworld' = w /\ w # sworld /\ shist' = "edit" /\ UNCHANGED <<spub, sinst, snum>>
\* the resolution: dependencies first, every package once; fails on exclusions
SClose == LET names == FoldLeft(LAMBDA acc, c : IF c.neg THEN acc ELSE LET p == SBuilds[SOf(c.n)]
                 q == IF p.deps # <<>> /\ ~p.deps[1].neg THEN <<p.deps[1].n, p.name>> ELSE <<p.name>> IN acc \o SelectSeq(q, LAMBDA n : \A j \in DOMAIN acc : acc[j] # n), <<>>, sworld)
          IN [k \in DOMAIN names |-> SBuilds[SOf(names[k])]]
SResolves == Unsatisfied(sworld, SClose) = {}
SSync == /\ snum.syncs < SSyncs /\ sworld # <<>>
         /\ \E bad \in {{}, {2, 5, 6}, {1, 4}} :
              /\ sinst' = (IF SResolves THEN SAfter(sinst, SClose, bad) ELSE sinst)
              /\ shist' = (IF SResolves /\ SCan(sinst, SClose, bad) THEN "done" ELSE "failed")
         /\ snum' = [snum EXCEPT !.syncs = @ + 1] /\ UNCHANGED <<spub, sworld>>
SNext == SPublish \/ SEdit \/ SSync
SSpec == SInit /\ [][SNext]_SVars
\* no name twice
SOnce == ~SameName(sinst) /\ ~Twice(sinst)
\* after a success, every name of the resolution is there and nothing it excludes was there before
SDone == shist = "done" => \A p \in Rng(SClose) : \E q \in Rng(sinst) : q.name = p.name
SApart == shist = "done" => \A p \in Rng(SClose) : \A c \in Rng(p.deps) : c.neg => ~\E q \in Rng(sinst) : q.name = c.n
\* what is installed stays as it is; a failure changes nothing; a repetition changes nothing
SKeeps == [][SubSeq(sinst', 1, Len(sinst)) = sinst]_SVars
SFails == [][shist' = "failed" => sinst' = sinst]_SVars
SAgain == [][(shist = "done" /\ SSync /\ shist' = "done") => sinst' = sinst]_SVars
=============================================================================
