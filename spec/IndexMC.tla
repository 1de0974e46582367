------------------------------- MODULE IndexMC ------------------------------
(* The reader machine consumes what the writer wrote, line by line.         *)
EXTENDS Index, TLC
CONSTANT Full
MCPkgs == TLCEval({[Empty EXCEPT !.name = pn, !.desc = pd, !.deps = ds, !.iif = is, !.size = sz, !.t = tt, !.sum = sm] :
            pn \in {"a", "", "P:x"}, pd \in {"", "some text"}, ds \in {<<>>, <<"x">>, <<"x>1", "!y">>}, is \in {<<>>, <<"u", "v">>},
            sz \in {"0", "12"}, tt \in (IF Full THEN {"", "0", "-5"} ELSE {"", "-5"}), sm \in {"", "Q1YWI="}})
VARIABLES idxin, todo, rdst
Init == /\ idxin \in {<<x, y>> : x \in MCPkgs, y \in (IF Full THEN MCPkgs ELSE {z \in MCPkgs : z.desc = "" /\ z.size = "12"})}
        /\ todo = WriteIdx(idxin) /\ rdst = R0
Next == todo # <<>> /\ rdst' = RStep(rdst, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED idxin
NeverFails == rdst.ok
RoundTrip == todo = <<>> => Flush(rdst).out = SelectSeq(idxin, LAMBDA pk : pk.name # "")
Prefix == Len(rdst.out) <= Len(idxin)
=============================================================================
