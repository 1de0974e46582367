----------------------------- MODULE IndexTrust ----------------------------
(* Which repository index archives may be trusted.                          *)
(* An archive: [content, signer (0: no signature section), covers (the      *)
(* content the signature was made over), shape]:                            *)
(*   plain   signature section followed by exactly the signed data          *)
(*   inside  as plain, the signature section also carries another index     *)
(*   closed  as plain, the signature section ends its tar archive           *)
(*   append  as plain, followed by further data                             *)
(*   front   another index in front of the signature section                *)
(*   damaged bytes changed or missing                                       *)
(* "other" is the content of that other index.                              *)
EXTENDS Integers, Sequences, FiniteSets
Verifies(a, keys) == a.signer # 0 /\ a.signer \in keys /\ a.covers = a.content /\ a.shape \in {"plain", "inside", "closed"}
\* does checking apply to url u in call c (c.ignore, c.exempt: set of urls)
Checked(c, u) == ~c.ignore /\ u \notin c.exempt
Acceptable(a, c, u) == Checked(c, u) => Verifies(a, c.keys)
\* contents that reading the archive may give
Contents(a, c, u) == IF Checked(c, u) THEN (IF Verifies(a, c.keys) THEN {a.content} ELSE {})
                     ELSE IF a.shape \in {"damaged", "closed"} THEN 0..99 ELSE IF a.shape \in {"plain"} THEN {a.content} ELSE {a.content, a.other}
\* an archive that every implementation must accept when it arrives undamaged
Plainly(a, c, u) == a.shape = "plain" /\ Acceptable(a, c, u)
=============================================================================
