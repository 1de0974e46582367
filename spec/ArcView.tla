------------------------------ MODULE ArcView ------------------------------
(* The read-only view of an archive.  Members ms: sequence of               *)
(* [p: name, a sequence of components; k: file, dir, link, hard, dev; perm; *)
(*  data; abs, tg: whether the target is absolute, and its components].     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANT AVariant
AParent(p) == SubSeq(p, 1, Len(p) - 1)
AProper(p) == {SubSeq(p, 1, n) : n \in 0..Len(p) - 1}
ANames(ms) == {ms[i].p : i \in 1..Len(ms)}
\* the last member of a name counts; directories need not be members
APaths(ms) == IF AVariant = "noimplicit" THEN ANames(ms) \cup {<<>>} ELSE ANames(ms) \cup {<<>>} \cup UNION {AProper(p) : p \in ANames(ms)}
AMember(ms, p) == LET S == {i \in 1..Len(ms) : ms[i].p = p} IN
  IF S = {} THEN [p |-> p, k |-> "dir", perm |-> -1, data |-> <<>>, abs |-> FALSE, tg |-> <<>>] ELSE ms[Max(S)]
\* what lies below something is below a directory
Consistent(ms) == \A p \in APaths(ms) : \A q \in AProper(p) : AMember(ms, q).k = "dir"
ADirNames(ms, p) == {q[Len(q)] : q \in {x \in APaths(ms) : x # <<>> /\ AParent(x) = p}}
RECURSIVE AWalk(_, _, _, _, _)
AWalk(ms, cur, rest, follow, hops) ==
  IF hops > 64 THEN [err |-> "loop", p |-> <<>>]
  ELSE IF rest = <<>> THEN [err |-> "", p |-> cur]
  ELSE IF Head(rest) \in {"", "."} THEN AWalk(ms, cur, Tail(rest), follow, hops)
  ELSE IF AMember(ms, cur).k # "dir" THEN [err |-> "noent", p |-> <<>>]
  ELSE IF Head(rest) = ".." THEN AWalk(ms, IF cur = <<>> THEN cur ELSE AParent(cur), Tail(rest), follow, hops)
  ELSE LET nx == Append(cur, Head(rest)) IN
    IF nx \notin APaths(ms) THEN [err |-> "noent", p |-> <<>>]
    ELSE LET m == AMember(ms, nx)  last == \A i \in 2..Len(rest) : rest[i] \in {"", "."} IN
      IF m.k \in {"link", "hard"} /\ (follow \/ ~last)
      \* the target of a symlink is relative to the directory the link is in, that of a hard link to the archive
      THEN AWalk(ms, IF m.abs \/ (m.k = "hard" /\ AVariant # "hardrel") THEN <<>> ELSE cur, m.tg \o Tail(rest), follow, hops + 1)
      ELSE AWalk(ms, nx, Tail(rest), follow, hops)
AResolve(ms, p, follow) == AWalk(ms, <<>>, p, follow, 0)
AKind(k) == IF k = "hard" THEN "file" ELSE k
=============================================================================
