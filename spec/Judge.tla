------------------------------- MODULE Judge -------------------------------
(* Common part of the oracles.  A judge module extends this one and defines *)
(* JBad(r), the set of clauses record r (one observation of the real code)  *)
(* violates.  The records are visited in NL independent lanes so that all   *)
(* TLC workers are used; JInv is always TRUE and prints what is violated.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
Recs == ndJsonDeserialize(IOEnv.RECS)
NL == 64
VARIABLE ji
JInit == ji \in 1..(IF Len(Recs) < NL THEN Len(Recs) ELSE NL)
JNext == ji + NL <= Len(Recs) /\ ji' = ji + NL
JReport(i, bad) == bad = {} \/ PrintT("VERDICT " \o ToJson([i |-> i, bad |-> bad]))
=============================================================================
