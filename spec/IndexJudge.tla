----------------------------- MODULE IndexJudge -----------------------------
EXTENDS Judge, Index
\* write + read of an index through the real code; r.lines is the text the real writer produced
RtJ(r) ==
  IF ~r.ok THEN {"roundtrip-error"}
  ELSE LET want == SelectSeq(r.pkgs, LAMBDA pk : pk.name # "")
           st == Read(r.lines)
       IN (IF r.got = want THEN {} ELSE {"roundtrip"})
          \cup (IF st.ok /\ st.out = want THEN {} ELSE {"written-text"})
          \cup (IF r.gotsig = r.sig THEN {} ELSE {"signature"})
          \cup (IF r.gotdesc = r.desc THEN {} ELSE {"description"})
\* the real reader over a text
ParseJ(r) ==
  LET st == Read(r.lines)
      names == [k \in 1..Len(r.got) |-> r.got[k].name]
  IN IF st.ok THEN (IF ~r.ok THEN {"parse-error"} ELSE IF r.got # st.out THEN {"parse"} ELSE {})
     ELSE IF r.ok /\ names # NamesIn(r.lines) THEN {"dropped"} ELSE {}
\* an archive cut or damaged: all packages or an error
ArcJ(r) == IF r.ok /\ r.got # r.pkgs THEN {"damaged-archive-accepted"} ELSE {}
JBad(r) == CASE r.kind = "rt" -> RtJ(r) [] r.kind = "parse" -> ParseJ(r) [] r.kind = "arc" -> ArcJ(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
