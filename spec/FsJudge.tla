------------------------------ MODULE FsJudge ------------------------------
(* A recorded history must be one the specification allows: each result and *)
(* error, the tree seen after each step, for a directory-backed filesystem  *)
(* also what is on the disk after each step, and what is seen when the      *)
(* directory is opened again.                                                *)
EXTENDS Judge, Fs, Strings
\* values as recorded: sets arrive as sequences
EqVal(op, exp, got, disk) ==
  CASE op.o = "readdir" -> ToSet(got) = exp /\ Len(got) = Cardinality(exp)
    [] op.o = "listx" -> ToSet(got) = exp
    [] op.o = "hstat" /\ disk -> got.k = exp.k /\ got.size = exp.size
    [] op.o \in {"stat", "lstat"} /\ (op.p = <<>> \/ Last(op.p) \in {"", ".", ".."}) -> [got EXCEPT !.name = ""] = [exp EXCEPT !.name = ""]
    [] OTHER -> got = exp
NormE(e) == [e EXCEPT !.x = ToSet(@)]
Norm(t) == {NormE(e) : e \in ToSet(t)}
\* on disk: owners and attributes are not kept; a device may be an empty file
DiskOf(v, perms) == {[p |-> e.p, k |-> e.k, data |-> e.data, tg |-> e.tg, perm |-> IF perms /\ e.k \in {"dir", "file"} THEN e.perm ELSE 0] : e \in v}
\* permissions are compared unless a handle is open (an unreadable file may be made readable while it is read)
DiskOK(st, v, d) == LET perms == \A i \in DOMAIN st.h : ~st.h[i].open
                       exp == DiskOf(v, perms)  got == DiskOf(d, perms) IN
  /\ Cardinality(v) = Cardinality(d)
  /\ \A g \in got : g \in exp \/ (g.k = "file" /\ g.data = <<>> /\ \E e \in exp : e.p = g.p /\ e.k = "dev")
\* with a case-insensitive disk only one of the variants of a name is there
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpSet == TLCEval({SubSeq(Upper, i, i) : i \in 1..26})
UpPos == TLCEval([c \in UpSet |-> Pos(c, Upper)])
FoldCase(s) == FoldLeft(LAMBDA acc, i : LET c == SubSeq(s, i, i) IN acc \o (IF c \in UpSet THEN SubSeq(Lower, UpPos[c], UpPos[c]) ELSE c), "", [i \in 1..Len(s) |-> i])
DiskFold(v, d) == /\ \A g \in DiskOf(d, FALSE) : \E e \in DiskOf(v, FALSE) : e.p = g.p /\ (e = g \/ (e.k = "dev" /\ g.k = "file" /\ g.data = <<>>))
                  /\ \A g, h \in d : g.p # h.p => FoldCase(g.p) # FoldCase(h.p)
\* reopened: the same tree, contents and permissions; owners and attributes are not on disk
ReTree(v) == {[p |-> e.p, k |-> e.k, perm |-> e.perm, data |-> e.data, tg |-> e.tg, dev |-> e.dev] : e \in v}
Forget(st) == [n |-> [i \in DOMAIN st.n |-> [st.n[i] EXCEPT !.uid = 0, !.gid = 0, !.x = {}]], h |-> <<>>]
\* state folded over the history: [st, tree (last recorded view), bad, stop]
StepF(r, acc, i) ==
  LET op == r.ops[i]  s == r.steps[i] IN
  IF acc.stop THEN acc
  ELSE IF op.o = "reopen" THEN
    LET st == Forget(acc.st)  t == Norm(s.tree) IN
    [acc EXCEPT !.st = st, !.tree = View(st), !.bad = IF ReTree(t) = ReTree(View(st)) THEN {} ELSE {<<"reopened", i>>}, !.stop = ReTree(t) # ReTree(View(st))]
  ELSE LET x == Fapply(acc.st, op) IN
  IF "any" \in x.errs THEN [acc EXCEPT !.stop = TRUE]
  ELSE LET v == View(x.st)
           t == IF s.ts THEN acc.tree ELSE Norm(s.tree)
           d == IF s.ds THEN acc.disk ELSE Norm(s.disk)
           bad == (IF s.bad = "" THEN {} ELSE {<<"view", s.bad, i>>}) \cup (IF s.err \in x.errs THEN {} ELSE {<<"error", op.o, s.err, x.errs, i>>})
             \cup (IF x.set /\ s.err \in x.errs /\ ~EqVal(op, x.val, s.val, r.isdisk) THEN {<<"result", op.o, i>>} ELSE {})
             \cup (IF t = v THEN {} ELSE {<<IF x.errs \cap {"", "eof"} # {} THEN "tree" ELSE "failed-op-changed-tree", op.o, i>>})
             \cup (IF ~r.isdisk THEN {} ELSE IF r.fold THEN (IF DiskFold(v, d) THEN {} ELSE {<<"disk", op.o, i>>}) ELSE IF DiskOK(x.st, v, d) THEN {} ELSE {<<"disk", op.o, i>>})
       IN [st |-> x.st, tree |-> t, disk |-> d, bad |-> bad, stop |-> bad # {}]
JBad(r) ==
  (IF r.outside = <<>> THEN {} ELSE {<<"outside">>}) \cup
  FoldLeft(LAMBDA acc, i : StepF(r, acc, i), [st |-> Empty0, tree |-> {}, disk |-> {}, bad |-> {}, stop |-> FALSE], [i \in 1..Len(r.ops) |-> i]).bad
JInv == JReport(ji, JBad(Recs[ji]))
=============================================================================
