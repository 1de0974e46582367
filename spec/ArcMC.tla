------------------------------- MODULE ArcMC -------------------------------
(* Archives built member by member: laws of the view, and archives to replay *)
EXTENDS ArcView, Json
CONSTANTS AMax
VARIABLE ams
AN == { <<"a">>, <<"d">>, <<"a", "b">>, <<"d", "e", "f">> }
T(abs, tg) == [abs |-> abs, tg |-> tg]
TG == { T(FALSE, <<"d">>), T(TRUE, <<"d">>), T(FALSE, <<"b">>), T(FALSE, <<"..", "a">>), T(FALSE, <<"a", "b">>), T(FALSE, <<"zz">>), T(FALSE, <<"d", "e">>) }
Mk(p, k, t, n) == [p |-> p, k |-> k, perm |-> IF k = "dir" THEN 493 ELSE 420, data |-> IF k = "file" THEN <<n>> ELSE <<>>, abs |-> t.abs, tg |-> t.tg]
AMembers(n) == {Mk(p, k, T(FALSE, <<>>), n) : p \in AN, k \in {"file", "dir"}} \cup {Mk(p, k, t, n) : p \in AN, k \in {"link", "hard"}, t \in TG}
AInit == ams = <<>>
ANext == Len(ams) < AMax /\ \E m \in AMembers(Len(ams) + 1) : Consistent(Append(ams, m)) /\ ams' = Append(ams, m)
Dirs == {p \in APaths(ams) : AMember(ams, p).k = "dir"}
\* every name is listed once, in its directory, starting from the root
RECURSIVE Below(_)
Below(p) == IF AMember(ams, p).k # "dir" THEN {p} ELSE {p} \cup UNION {Below(Append(p, n)) : n \in ADirNames(ams, p)}
Listed == ANames(ams) \subseteq Below(<<>>)
Q == AN \cup {<<"d", "e">>, <<"a", "b", "c">>, <<"a", "e", "f">>}
Resolved == \A q \in Q : LET r == AResolve(ams, q, TRUE) IN r.err = "" => r.p \in APaths(ams) /\ AMember(ams, r.p).k \notin {"link", "hard"} /\ AResolve(ams, r.p, TRUE).p = r.p
HardSame == \A i \in 1..Len(ams) : LET m == AMember(ams, ams[i].p) IN
  (m.k = "hard" /\ AResolve(ams, m.tg, TRUE).err = "") => AResolve(ams, m.p, TRUE).p = AResolve(ams, m.tg, TRUE).p
NoFollow == \A p \in APaths(ams) : AResolve(ams, p, FALSE) = [err |-> "", p |-> p]
AGenPrint == PrintT("GEN " \o ToJson(ams))
=============================================================================
