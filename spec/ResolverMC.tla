----------------------------- MODULE ResolverMC -----------------------------
(* The resolver as a nondeterministic state machine over all small          *)
(* universes: constraints are taken in any order, any remaining candidate   *)
(* may be picked (the code's preference order is one refinement), every     *)
(* constraint seen disqualifies what contradicts it, and the solution is    *)
(* verified before it is returned.  Properties: whatever is returned is     *)
(* sound; where every needed name has exactly one provider that satisfies   *)
(* every constraint the machine cannot fail; it always terminates.          *)
(* Generate writes the universes so that they are replayed in the real code.*)
EXTENDS Resolver, FiniteSetsExt, Json, IOUtils, Randomization
CONSTANTS Verify, Sample

C(neg, n, op, v) == [neg |-> neg, n |-> n, op |-> op, v |-> v, pin |-> ""]
Base(id, n, v) == [id |-> id, name |-> n, ver |-> v, prov |-> <<>>, deps |-> <<>>, org |-> "", prio |-> 0, tag |-> "", iif |-> <<>>]
DepA == TLCEval({<<>>, <<C(FALSE,"b","","")>>, <<C(FALSE,"b","<","2")>>, <<C(FALSE,"b",">","1"), C(FALSE,"c","","")>>, <<C(TRUE,"b","","")>>, <<C(FALSE,"c","","")>>, <<C(FALSE,"v","","")>>})
DepB == TLCEval({<<>>, <<C(FALSE,"c","","")>>, <<C(FALSE,"a","","")>>, <<C(FALSE,"a","=","1")>>, <<C(TRUE,"c","","")>>})
DepC == TLCEval({<<>>, <<C(FALSE,"a","<","2")>>, <<C(FALSE,"b","","")>>, <<C(TRUE,"a",">","1")>>})
PrvC == TLCEval({<<>>, <<[n |-> "b", v |-> "3"]>>, <<[n |-> "v", v |-> ""]>>})
PrvB == TLCEval({<<>>, <<[n |-> "v", v |-> ""]>>})
Worlds == TLCEval({<<C(FALSE,"a","","")>>, <<C(FALSE,"a","","" ), C(FALSE,"b","","")>>, <<C(FALSE,"a","=","1"), C(FALSE,"c","","")>>,
           <<C(FALSE,"b","","")>>, <<C(FALSE,"a","",""), C(TRUE,"b",">","1")>>, <<C(FALSE,"v","",""), C(FALSE,"a",">","1")>>})
Univ(d1, d2, e1, e2, f1, pc, pb) ==
  << [Base(1,"a","1") EXCEPT !.deps = d1], [Base(2,"a","2") EXCEPT !.deps = d2],
     [Base(3,"b","1") EXCEPT !.deps = e1], [Base(4,"b","2") EXCEPT !.deps = e2, !.prov = pb],
     [Base(5,"c","1") EXCEPT !.deps = f1, !.prov = pc] >>
Tuples == TLCEval(DepA \X DepA \X DepB \X DepB \X DepC \X PrvC \X PrvB \X Worlds)
Cases == TLCEval(IF Sample = 0 THEN Tuples ELSE RandomSubset(Sample, Tuples))

VARIABLES mcu, mcw, picked, opened, ruled, mcst
vars == <<mcu, mcw, picked, opened, ruled, mcst>>
P(k) == mcu[k]
Init == /\ \E t \in Cases : mcu = Univ(t[1],t[2],t[3],t[4],t[5],t[6],t[7]) /\ mcw = t[8]
        /\ picked = {} /\ opened = Rng(mcw) /\ mcst = "run"
        /\ ruled = {k \in 1..5 : \E c \in Rng(mcw) : c.n \in Names(P(k)) /\ (c.neg = SatP(P(k), c)) }
Contradicts(k, c) == c.n \in Names(P(k)) /\ (c.neg = SatP(P(k), c))
Pick(c, k) ==
  /\ picked' = picked \cup {k}
  /\ opened' = (opened \ {c}) \cup {x \in Rng(P(k).deps) : ~SatP(P(k), x)}
  /\ ruled' = ruled \cup {j \in 1..5 : j # k /\ (P(j).name = P(k).name \/ \E x \in Rng(P(k).deps) : Contradicts(j, x))}
  /\ UNCHANGED <<mcu, mcw, mcst>>
Step ==
  /\ mcst = "run"
  /\ IF opened = {}
     THEN /\ mcst' = IF Verify /\ Unsatisfied(mcw, SetToSeq({P(k) : k \in picked})) # {} THEN "err" ELSE "ok"
          /\ UNCHANGED <<mcu, mcw, picked, opened, ruled>>
     ELSE \E c \in opened :
            IF c.neg \/ \E k \in picked : SatP(P(k), c)
            THEN opened' = opened \ {c} /\ UNCHANGED <<mcu, mcw, picked, ruled, mcst>>
            ELSE LET cands == {k \in 1..5 : k \notin ruled \cup picked /\ SatP(P(k), c)}
                 IN IF cands = {} THEN mcst' = "err" /\ UNCHANGED <<mcu, mcw, picked, opened, ruled>>
                    ELSE \E k \in cands : Pick(c, k)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
InvSound == mcst = "ok" => /\ Unsatisfied(mcw, SetToSeq({P(k) : k \in picked})) = {}
                           /\ ~SameName(SetToSeq({P(k) : k \in picked}))
InvMust == mcst = "err" => ~MustSucceed(Rng(mcu), mcw, NeedSet(Rng(mcu), mcw))
Terminates == <>(mcst # "run")

VARIABLE genu
GInit == genu = 0 /\ mcu = <<>> /\ mcw = <<>> /\ picked = {} /\ opened = {} /\ ruled = {} /\ mcst = "gen"
MInit == Init /\ genu = 0
MNext == Step /\ UNCHANGED genu
MSpec == MInit /\ [][MNext]_<<vars, genu>> /\ WF_vars(Step)
GNext == FALSE /\ UNCHANGED <<vars, genu>>
Generate == ndJsonSerialize(IOEnv.GENOUT, SetToSeq({[univ |-> Univ(t[1],t[2],t[3],t[4],t[5],t[6],t[7]), world |-> t[8]] : t \in Cases}))
=============================================================================
