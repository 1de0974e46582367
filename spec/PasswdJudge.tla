----------------------------- MODULE PasswdJudge ----------------------------
EXTENDS Judge, Passwd
\* r: group?, lines loaded, loaded (ok, entries), edits, then (ok) written lines
\* and entries read again; lfired, wfired: a filesystem operation failed while loading or writing
FileJ(r) ==
  LET g == r.group IN
  IF ~FileOK(g, r.lines) THEN (IF r.ok THEN {"bad-line-accepted"} ELSE {})
  ELSE IF ~r.ok THEN (IF r.lfired THEN {} ELSE {"load-error"})
  ELSE LET es == Entries(g, r.lines)
           fin == FoldLeft(LAMBDA acc, o : EditE(acc, o), es, r.edits)
       IN (IF r.loaded = es THEN {} ELSE {"loaded"})
          \cup (IF ~r.wok THEN (IF r.wfired THEN {} ELSE {"write-error"}) ELSE
                (IF FileOK(g, r.written) /\ Entries(g, r.written) = fin THEN {} ELSE {"written"})
                \cup (IF r.rok /\ r.again = fin THEN {} ELSE {"read-again"})
                \cup (IF r.edits = <<>> /\ Lines(g, es) = r.lines /\ r.written # r.lines THEN {"text-changed"} ELSE {}))
\* one entry object, parsed into line after line: what is left of the last line does not matter
ReuseJ(r) == UNION {LET x == r.reuse[k] IN
                    IF x.ok # OKLine(r.group, r.lines[k]) THEN {"entry-accepted"}
                    ELSE IF x.ok /\ x.e # <<Entry(r.group, r.lines[k])>> THEN {"entry"} ELSE {} : k \in 1..Len(r.reuse)}
JBad(r) == FileJ(r) \cup ReuseJ(r)
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
