---------------------------- MODULE VersionJudge ----------------------------
(* Oracle for C01: observations of ParseVersion, CompareVersions and of     *)
(* version requests to the resolver.                                        *)
EXTENDS Judge, Version

ParseBad(r) == IF r.accepted = ParseV(r.s).ok THEN {} ELSE {"grammar"}

CmpBad(r) ==
  LET a == ParseV(r.a)  b == ParseV(r.b) IN
  IF ~a.ok \/ ~b.ok THEN {"grammar"}
  ELSE IF r.cmp = CmpV(a, b) THEN {} ELSE {"order"}

\* r.op, r.ver: the request; r.have: versions present; r.got: versions returned
SelBad(r) ==
  LET want == {v \in Range(r.have) : Satisfies(r.op, v, r.ver)}
  IN IF want = Range(r.got) THEN {} ELSE {"select" \o r.op}

JBad(r) == CASE r.kind = "parse"  -> ParseBad(r)
             [] r.kind = "cmp"    -> CmpBad(r)
             [] r.kind = "select" -> SelBad(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
