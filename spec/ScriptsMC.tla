----------------------------- MODULE ScriptsMC ------------------------------
(* The scripts archive as blocks: a member is a header block followed by    *)
(* its data blocks, which may themselves be all zeros; two zero blocks end  *)
(* it.  Adding the scripts of a package writes over the end of the archive. *)
EXTENDS Integers, Sequences, TLC
CONSTANT SVariant
VARIABLES arch, done
Z == [k |-> "zero", m |-> 0, n |-> 0]
H(m, n) == [k |-> "head", m |-> m, n |-> n]
D(m) == [k |-> "data", m |-> m, n |-> 0]
\* contents of a script: sequences of up to two blocks, each zero or not
Contents == {<<>>} \cup {<<a>> : a \in {TRUE, FALSE}} \cup {<<a, b>> : a, b \in {TRUE, FALSE}}
Member(m, c) == <<H(m, Len(c))>> \o [i \in 1..Len(c) |-> IF c[i] THEN D(m) ELSE Z]
RECURSIVE Members(_, _)
Members(m, cs) == IF cs = <<>> THEN <<>> ELSE Member(m, Head(cs)) \o Members(m + 1, Tail(cs))
RECURSIVE StripZ(_)
StripZ(a) == IF a # <<>> /\ a[Len(a)] = Z THEN StripZ(SubSeq(a, 1, Len(a) - 1)) ELSE a
Body(a) == CASE SVariant = "terminator" -> a
             [] SVariant = "pair" -> StripZ(a)
             [] OTHER -> SubSeq(a, 1, Len(a) - 2)
Adds(a, m, cs) == Body(a) \o Members(m, cs) \o <<Z, Z>>
\* what a reader finds: sequence of [m, c], <<"bad">> if it is not an archive
RECURSIVE Read(_)
Read(a) ==
  IF Len(a) < 2 THEN <<"bad">>
  ELSE IF a[1].k = "zero" THEN (IF a[2] = Z THEN <<>> ELSE <<"bad">>)
  ELSE IF a[1].k # "head" \/ Len(a) < 1 + a[1].n THEN <<"bad">>
  ELSE LET n == a[1].n
           c == [i \in 1..n |-> a[i + 1].k = "data"]
           ok == \A i \in 1..n : a[i + 1].k = "zero" \/ (a[i + 1].k = "data" /\ a[i + 1].m = a[1].m)
       IN IF ok THEN <<[m |-> a[1].m, c |-> c]>> \o Read(SubSeq(a, n + 2, Len(a))) ELSE <<"bad">>
SInit == arch = <<Z, Z>> /\ done = <<>>
SNext == /\ Len(done) < 3
         /\ \E cs \in {<<>>} \cup {<<a>> : a \in Contents} \cup {<<a, b>> : a \in Contents, b \in {<<>>, <<FALSE>>}} :
              /\ Len(done) + Len(cs) <= 3
              /\ arch' = Adds(arch, Len(done) + 1, cs)
              /\ done' = done \o [i \in 1..Len(cs) |-> [m |-> Len(done) + i, c |-> cs[i]]]
Laws == /\ Read(arch) = done
        /\ Len(arch) >= 2 /\ arch[Len(arch)] = Z /\ arch[Len(arch) - 1] = Z
=============================================================================
