---------------------------- MODULE IndexTrustMC ---------------------------
(* The process-wide index cache as a state machine: origins change what     *)
(* they serve, calls with different keys / exemptions load, fail, are       *)
(* cancelled.  TPolicy says how the cache is keyed: "mode" (url and what    *)
(* was required of the signature: the implementation), "url" must be found  *)
(* to break Sound; TSticky remembers failures and must break Live.          *)
EXTENDS IndexTrust, TLC, Json, IOUtils, SequencesExt
CONSTANTS TPolicy, TSticky, TDepth
TKeys == {1, 2}
TArch == TLCEval({[content |-> co, signer |-> si, covers |-> cv, shape |-> sh, other |-> 9] : co \in {1, 2}, si \in 0..2, cv \in {1, 2}, sh \in {"plain", "append"}})
TCalls == TLCEval({[keys |-> ks, ignore |-> ig, exempt |-> ex] : ks \in SUBSET TKeys, ig \in BOOLEAN, ex \in {{}, {"u"}}})
VARIABLES tserved, tseen, tcache, tlast, tn
tvars == <<tserved, tseen, tcache, tlast, tn>>
TKey(c) == IF TPolicy = "url" THEN "u" ELSE IF Checked(c, "u") THEN <<"keys", c.keys>> ELSE <<"unchecked">>
Init == tserved \in TArch /\ tseen = {} /\ tcache = {} /\ tlast = [call |-> 0] /\ tn = 0
Serve == tserved' \in TArch /\ tn' = tn + 1 /\ tlast' = [call |-> 0] /\ UNCHANGED <<tseen, tcache>>
\* ev: how the fetch goes
Load(c, ev) ==
  LET hit == {e \in tcache : e.key = TKey(c)} IN
  /\ tn' = tn + 1 /\ UNCHANGED tserved
  /\ IF hit # {} THEN LET e == CHOOSE x \in hit : TRUE IN tlast' = [call |-> 1, c |-> c, ok |-> e.ok, content |-> e.content, ev |-> ev] /\ UNCHANGED <<tseen, tcache>>
     ELSE IF ev # "ok" THEN /\ tlast' = [call |-> 1, c |-> c, ok |-> FALSE, content |-> 0, ev |-> ev] /\ UNCHANGED tseen
                            /\ tcache' = IF TSticky THEN tcache \cup {[key |-> TKey(c), ok |-> FALSE, content |-> 0]} ELSE tcache
     ELSE LET ok == Acceptable(tserved, c, "u") IN
          /\ tseen' = tseen \cup {tserved}
          /\ tlast' = [call |-> 1, c |-> c, ok |-> ok, content |-> IF ok THEN tserved.content ELSE 0, ev |-> ev]
          /\ tcache' = IF ok \/ TSticky THEN tcache \cup {[key |-> TKey(c), ok |-> ok, content |-> IF ok THEN tserved.content ELSE 0]} ELSE tcache
Next == tn < TDepth /\ (Serve \/ \E c \in TCalls, ev \in {"ok", "fail", "cancel"} : Load(c, ev))
Sound == tlast.call = 1 /\ tlast.ok => \E a \in tseen : tlast.content \in Contents(a, tlast.c, "u")
Live == tlast.call = 1 /\ tlast.ev = "ok" /\ Plainly(tserved, tlast.c, "u") => tlast.ok
\* ---- histories for the real code: every sequence of TDepth steps over a small alphabet
GArch == <<[content |-> 1, signer |-> 1, covers |-> 1, shape |-> "plain", other |-> 9],
           [content |-> 2, signer |-> 2, covers |-> 2, shape |-> "plain", other |-> 9],
           [content |-> 3, signer |-> 0, covers |-> 0, shape |-> "plain", other |-> 9],
           [content |-> 4, signer |-> 1, covers |-> 1, shape |-> "plain", other |-> 9]>>
GCalls == {[keys |-> <<1>>, ignore |-> FALSE, exempt |-> <<>>], [keys |-> <<2>>, ignore |-> FALSE, exempt |-> <<>>], [keys |-> <<1, 2>>, ignore |-> FALSE, exempt |-> <<>>],
           [keys |-> <<>>, ignore |-> FALSE, exempt |-> <<>>], [keys |-> <<1>>, ignore |-> TRUE, exempt |-> <<>>], [keys |-> <<1>>, ignore |-> FALSE, exempt |-> <<1>>]}
GSteps == {[a |-> a, net |-> nt, c |-> c] : a \in 1..4, nt \in {"ok"}, c \in GCalls} \cup {[a |-> a, net |-> nt, c |-> c] : a \in {1}, nt \in {"err", "cancel"}, c \in GCalls}
Gen == ndJsonSerialize(IOEnv.GENOUT, SetToSeq([1..TDepth -> GSteps]))
=============================================================================
