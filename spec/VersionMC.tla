------------------------------ MODULE VersionMC ------------------------------
(* Laws of the version order, checked for every triple of a small but       *)
(* structurally complete set of versions, and generation of the cases that  *)
(* are run against the real code.                                           *)
EXTENDS Version, TLC, Json, FiniteSets, IOUtils
CONSTANTS Nums, Lets, Pres, Posts, Revs, Tokens, MaxTok
VARIABLES va, vb, vc
Strs == {n \o l \o p \o q \o r : n \in Nums, l \in Lets, p \in Pres, q \in Posts, r \in Revs}
V == TLCEval([s \in Strs |-> TLCEval(ParseV(s))])
Cm(x, y) == CmpV(V[x], V[y])
Init == va \in Strs /\ vb \in Strs /\ vc = ""
Next == vc = "" /\ vc' \in Strs /\ UNCHANGED <<va, vb>>
AllValid == V[va].ok
Reflexive == Cm(va, va) = 0
Antisymmetric == Cm(va, vb) = -Cm(vb, va)
Transitive == vc # "" => ((Cm(va, vb) <= 0 /\ Cm(vb, vc) <= 0) => Cm(va, vc) <= 0)
EqCongruent == vc # "" => (Cm(va, vb) = 0 => Cm(va, vc) = Cm(vb, vc))
Trichotomy == Cardinality({op \in {"=", "<", ">"} : SatV(op, V[va], V[vb])}) = 1
LeGe == /\ SatV("<=", V[va], V[vb]) = (SatV("<", V[va], V[vb]) \/ SatV("=", V[va], V[vb]))
        /\ SatV(">=", V[va], V[vb]) = (SatV(">", V[va], V[vb]) \/ SatV("=", V[va], V[vb]))
\* What "~" accepts contains what "=" accepts
TildeContainsEq == SatV("=", V[va], V[vb]) => SatV("~", V[va], V[vb])
\* case generation: all versions of the set, and every token string up to MaxTok tokens
RECURSIVE TokStrs(_)
TokStrs(n) == IF n = 0 THEN {""} ELSE LET T == TokStrs(n - 1) IN T \cup {t \o k : t \in T, k \in Tokens}
GInit == va = "" /\ vb = "" /\ vc = ""
GNext == UNCHANGED <<va, vb, vc>>
Generate == va = "" /\ ndJsonSerialize(IOEnv.GENOUT, <<[versions |-> Strs, strings |-> TokStrs(MaxTok)]>>)
=============================================================================
