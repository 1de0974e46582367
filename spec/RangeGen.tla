------------------------------ MODULE RangeGen -----------------------------
(* All sequences of three answers of the server to replay against the real reader. *)
EXTENDS Integers, Sequences, Json, IOUtils, SequencesExt, TLC
VARIABLE rgen
GInit == rgen = 0
GNext == UNCHANGED rgen
First == {[kind |-> "full", cut |-> c] : c \in 0..5}
More == {[kind |-> k, cut |-> c] : k \in {"full", "range"}, c \in 0..5} \cup {[kind |-> k, cut |-> 5] : k \in {"wrong", "short", "stub", "refused", "status"}}
Generate == ndJsonSerialize(IOEnv.GENOUT, SetToSeq({<<a, b, c>> : a \in First, b \in More, c \in More}))
=============================================================================
