--------------------------- MODULE IndexTrustGen ---------------------------
EXTENDS IndexTrustMC
GInit == Init /\ tserved = CHOOSE a \in TArch : TRUE
GNext == UNCHANGED tvars
Generate == Gen
=============================================================================
