---- MODULE PkginfoMC ----
(* What a package builder writes is read back, line by line, with other lines anywhere in between. *)
EXTENDS Pkginfo
CONSTANTS PBig
PDescs == {"", "plain", "C# x", "#", "\"q\"", "a;b=c", "=", "end\\", "%(arch)s", "[s]", "`", "'a'", "a: b"}
PMetas == TLCEval([desc : IF PBig THEN PDescs ELSE {"", "C# x", "\"q\"", "end\\", "="}, url : IF PBig THEN {"", "h/#f", "\\"} ELSE {"h/#f"}, deps : {<<>>, <<"x">>, <<"x", "x">>, <<"y", "x>=1", "y">>}, iif : {<<>>, <<"u", "v">>, <<"u", "u">>}, size : {"0", "12", "18446744073709551615"}])
PNoise == {"# pkgdesc = no", "", "garbage", "other = 1", "[x]", "#", " \t"}
PWrite(m) == <<"pkgname = n", "pkgdesc = " \o m.desc, "url = " \o m.url, "size = " \o m.size, "arch = a">>
   \o [i \in DOMAIN m.deps |-> "depend = " \o m.deps[i]] \o (IF m.iif = <<>> THEN <<>> ELSE <<"install_if = " \o m.iif[1] \o " " \o m.iif[2]>>)
VARIABLES pmeta, ptodo, pst
PInit == \E m \in PMetas, n \in PNoise, at \in (IF PBig THEN 0..9 ELSE {2}) :
   LET w == PWrite(m)  k == IF at > Len(w) THEN Len(w) ELSE at IN pmeta = m /\ ptodo = SubSeq(w, 1, k) \o <<n>> \o SubSeq(w, k + 1, Len(w)) /\ pst = PEmpty
PNext == ptodo # <<>> /\ pst' = PLine(pst, Head(ptodo)) /\ ptodo' = Tail(ptodo) /\ UNCHANGED pmeta
PBack == ptodo = <<>> => /\ pst.ok /\ ~pst.odd /\ pst.text["pkgdesc"] = pmeta.desc /\ pst.text["url"] = pmeta.url /\ pst.text["arch"] = "a" /\ pst.text["pkgname"] = "n"
   /\ pst.list["depend"] = pmeta.deps /\ pst.list["install_if"] = pmeta.iif /\ pst.num["size"] = pmeta.size
(* a line never changes what earlier lines said *)
PKeeps == [][\A k \in PTextKeys : pst.text[k] # "" => pst'.text[k] = pst.text[k]]_<<pst>>
====
