--------------------------- MODULE InstalledJudge ---------------------------
EXTENDS Judge, InstalledDb
\* packages recorded (r.log: pk, hs) and read back (r.got: pk, files); r.lines is the text written
Pk(x) == x @@ [repl |-> <<>>]
RtJ(r) ==
  IF r.addok = FALSE THEN {"add-error"}
  ELSE IF ~r.ok THEN {"read-error"}
  ELSE LET st == DRead(r.lines) IN
    (IF Len(r.got) # Len(r.log) THEN {"packages"}
     ELSE UNION {(IF Pk(r.got[i].pk) = r.log[i].pk THEN {} ELSE {"metadata"}) \cup (IF FilesOK(r.log[i].hs, r.got[i].files) THEN {} ELSE {"files"}) : i \in 1..Len(r.log)})
    \cup (IF ~st.ok \/ Len(st.out) # Len(r.log) THEN {"written-text"}
          ELSE UNION {IF st.out[i].pk = r.log[i].pk /\ FilesOK(r.log[i].hs, st.out[i].files) THEN {} ELSE {"written-text"} : i \in 1..Len(r.log)})
\* arbitrary text
ParseJ(r) ==
  LET st == DRead(r.lines) IN
  IF st.ok THEN (IF ~r.ok THEN {"parse-error"} ELSE IF Len(r.got) # Len(st.out) \/ \E i \in 1..Len(st.out) : Pk(r.got[i].pk) # st.out[i].pk \/ r.got[i].files # st.out[i].files THEN {"parse"} ELSE {})
  ELSE IF r.ok /\ Len(r.got) # Len(st.out) THEN {"dropped"}
  ELSE IF r.ok /\ \A i \in 1..Len(r.lines) : LET l == r.lines[i] IN
            Len(l) >= 2 /\ SubSeq(l, 1, 2) \in {"M:", "a:"} /\ PermsOK(Val(l)) => PermsKnown(Val(l))
       THEN {"bad-line-accepted"} ELSE {}
JBad(r) == CASE r.kind = "rt" -> RtJ(r) [] r.kind = "parse" -> ParseJ(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
