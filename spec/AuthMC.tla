------------------------------- MODULE AuthMC ------------------------------
(* A client that takes the credentials of the URL or else the configured    *)
(* ones, and on a redirect keeps them only under the name it started at.    *)
(* AVariant names defective clients: anyHost, keep, noEmpty, nameOnly,      *)
(* suffix, drop.                                                            *)
EXTENDS Auth, Json
CONSTANTS AHosts, AShapes, AVariant, ALen
VARIABLES acfg, ach, apos, asent
avars == <<acfg, ach, apos, asent>>
Link == [h : AHosts, emb : {"none", "up"}]
Init == acfg \in [AHosts -> AShapes] /\ ach \in UNION {[1..n -> Link] : n \in 1..ALen} /\ apos = 0 /\ asent = <<>>
Lookup(h) ==
  LET S == CASE AVariant = "anyHost" -> {g \in AHosts : acfg[g] # "none"}
             [] AVariant = "nameOnly" -> {g \in AHosts : acfg[g] # "none" /\ NameOf(g) = NameOf(h)}
             [] AVariant = "suffix" -> {g \in AHosts : acfg[g] # "none" /\ (g = h \/ (g = "a" /\ h \in {"s.a", "xa"}))}
             [] AVariant = "noEmpty" -> {g \in AHosts : acfg[g] = "up" /\ g = h}
             [] OTHER -> {g \in AHosts : acfg[g] # "none" /\ g = h}
  IN IF S = {} THEN "none" ELSE Cfg(CHOOSE g \in S : TRUE)
Start == LET h == ach[1].h IN IF ach[1].emb # "none" THEN Emb(1) ELSE Lookup(h)
Send(k) == IF k = 1 THEN Start
           ELSE LET kept == IF AVariant = "keep" \/ (AVariant # "drop" /\ Under(ach[k].h, ach[1].h)) THEN asent[1] ELSE "none" IN
                IF kept # "none" THEN kept ELSE IF ach[k].emb # "none" THEN Emb(k) ELSE "none"
Next == apos < Len(ach) /\ apos' = apos + 1 /\ asent' = Append(asent, Send(apos + 1)) /\ UNCHANGED <<acfg, ach>>
Right == \A k \in 1..apos : asent[k] \in Acceptable(acfg, ach, k)
NoLeak == \A k \in 1..apos : Meant(ach, k, asent[k])
Sound == \A k \in 1..Len(ach) : \A x \in Acceptable(acfg, ach, k) : Meant(ach, k, x)
=============================================================================
