------------------------------ MODULE PasswdMC ------------------------------
(* The file as a state machine: load, edit, write, load again.              *)
EXTENDS Passwd, TLC
PUsers == TLCEval({[name |-> un, pw |-> "x", uid |-> ui, gid |-> gi, info |-> nf, home |-> "/h", shell |-> sh] :
            un \in {"a", "b"}, ui \in {"0", "4294967295"}, gi \in {"7"}, nf \in {"A B"}, sh \in {"", "/bin/sh"}})
PGroups == TLCEval({[name |-> un, pw |-> "x", gid |-> ui, members |-> mm] : un \in {"a", "b"}, ui \in {"0", "4294967295"}, mm \in {<<>>, <<"u">>, <<"u", "v">>}})
VARIABLES pgrp, pmem, pfile, pdirty
Es == IF pgrp THEN PGroups ELSE PUsers
Init == pgrp \in BOOLEAN /\ pmem = <<>> /\ pfile = <<>> /\ pdirty = FALSE
Edits == {[op |-> "append", i |-> 0, e |-> e] : e \in IF Len(pmem) < 2 THEN Es ELSE {}}
         \cup {[op |-> "set", i |-> i, e |-> e] : i \in 1..Len(pmem), e \in {x \in Es : x.name = "b"}}
         \cup {[op |-> "del", i |-> i, e |-> <<>>] : i \in 1..Len(pmem)}
Edit == \E o \in Edits : pmem' = EditE(pmem, o) /\ pdirty' = TRUE /\ UNCHANGED <<pgrp, pfile>>
Write == pfile' = Lines(pgrp, pmem) /\ pdirty' = FALSE /\ UNCHANGED <<pgrp, pmem>>
Load == pmem' = Entries(pgrp, pfile) /\ pdirty' = FALSE /\ UNCHANGED <<pgrp, pfile>>
Next == Edit \/ Write \/ Load
WellFormed == FileOK(pgrp, pfile)
Faithful == ~pdirty => Entries(pgrp, pfile) = pmem
Fixpoint == Lines(pgrp, Entries(pgrp, pfile)) = pfile
Bound == Len(pmem) <= 2
=============================================================================
