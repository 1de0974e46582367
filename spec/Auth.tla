-------------------------------- MODULE Auth -------------------------------
(* Credentials of requests.  A fetch starts at chain[1] and is redirected   *)
(* along the chain; every element has a host and possibly credentials in    *)
(* its URL.  cfg gives the credentials configured for hosts ("none", "up",  *)
(* "u" without a password, "p" without a user).  Credentials are named      *)
(* "none", "cfg:<host>" or "emb:<position>".                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AllHosts == <<"a", "s.a", "a:8443", "b", "xa", "b:8443">>
NameOf(h) == IF h \in {"a", "a:8443"} THEN "a" ELSE IF h \in {"b", "b:8443"} THEN "b" ELSE h
\* the same machine name, or a subdomain
Under(h, g) == NameOf(h) = NameOf(g) \/ (NameOf(g) = "a" /\ NameOf(h) = "s.a")
Emb(k) == "emb:" \o ToString(k)
Cfg(h) == "cfg:" \o h
Of(cfg, h) == IF cfg[h] = "none" THEN {} ELSE {Cfg(h)}
EmbOf(ch, k) == IF ch[k].emb = "none" THEN {} ELSE {Emb(k)}
Or(s) == IF s = {} THEN {"none"} ELSE s
First(cfg, ch) == Or(Of(cfg, ch[1].h) \cup EmbOf(ch, 1))
\* what request k of a chain may carry
Acceptable(cfg, ch, k) ==
  IF k = 1 THEN First(cfg, ch)
  \* (credentials written into the first URL need not be kept: they are the URL's)
  ELSE LET own == EmbOf(ch, k) \cup Of(cfg, ch[k].h) \cup UNION {IF Under(ch[k].h, ch[j].h) THEN EmbOf(ch, j) ELSE {} : j \in 1..k} IN
       IF \A j \in 1..k : ch[j].h = ch[1].h THEN First(cfg, ch) \cup own \cup (IF EmbOf(ch, 1) = {} THEN {} ELSE {"none"})
       ELSE IF Under(ch[k].h, ch[1].h) THEN First(cfg, ch) \cup own \cup {"none"}
       ELSE own \cup {"none"}
\* nothing in that set was meant for somebody else: stated on its own, as a check of the definition
Meant(ch, k, x) == x = "none" \/ (\E h \in {AllHosts[i] : i \in 1..Len(AllHosts)} : x = Cfg(h) /\ Under(ch[k].h, h)) \/ (\E j \in 1..k : x = Emb(j) /\ Under(ch[k].h, ch[j].h))
=============================================================================
