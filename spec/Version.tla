------------------------------ MODULE Version ------------------------------
(* The apk version grammar, its order and the constraint operators.         *)
(* A version is parsed by a small left-to-right machine; numbers stay digit *)
(* strings so that the specification is not limited to TLC's integers.      *)
EXTENDS Strings, FiniteSets

PreNames  == <<"_alpha", "_beta", "_pre", "_rc">>
PostNames == <<"_cvs", "_svn", "_git", "_hg", "_p">>
PreNone   == 5                      \* sorts after every pre-release suffix
MaxInt    == "9223372036854775807"  \* components must fit a machine integer
Fits(d) == CmpNum(d, MaxInt) <= 0

None == [ok |-> FALSE]

\* .n.n.n starting at position i: numbers read and the position after them
Dotted(s, i0, first) ==
  LET D[n \in 0..Len(s)] ==      \* after at most n components
        IF n = 0 THEN [i |-> i0, ns |-> first]
        ELSE LET p == D[n - 1]
                 e == DigitRun(s, p.i + 1)
             IN IF p.i <= Len(s) /\ Char(s, p.i) = "." /\ e > p.i + 1
                THEN [i |-> e, ns |-> Append(p.ns, SubSeq(s, p.i + 1, e - 1))]
                ELSE p
  IN D[Cardinality({k \in i0..Len(s) : Char(s, k) = "."})]

\* Longest suffix name of table T at position i (index in T, 0 if none)
SuffixAt(s, i, T) ==
  LET S == {k \in 1..Len(T) : HasPrefixAt(s, i, T[k])}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : Len(T[j]) <= Len(T[k])

ParseV(s) ==
  LET e1 == DigitRun(s, 1) IN
  IF e1 = 1 THEN None ELSE
  LET d   == Dotted(s, e1, <<SubSeq(s, 1, e1 - 1)>>)
      i2  == d.i
      hasL == i2 <= Len(s) /\ IsLower(Char(s, i2))
      let == IF hasL THEN Pos(Char(s, i2), Lower) ELSE 0
      i3  == IF hasL THEN i2 + 1 ELSE i2
      pre == SuffixAt(s, i3, PreNames)
      i4a == IF pre = 0 THEN i3 ELSE i3 + Len(PreNames[pre])
      i4  == IF pre = 0 THEN i3 ELSE DigitRun(s, i4a)
      post == SuffixAt(s, i4, PostNames)
      i5a == IF post = 0 THEN i4 ELSE i4 + Len(PostNames[post])
      i5  == IF post = 0 THEN i4 ELSE DigitRun(s, i5a)
      hasR == HasPrefixAt(s, i5, "-r") /\ DigitRun(s, i5 + 2) > i5 + 2
      i6  == IF hasR THEN DigitRun(s, i5 + 2) ELSE i5
      v == [ok |-> TRUE, ns |-> d.ns, let |-> let,
            pre |-> IF pre = 0 THEN PreNone ELSE pre, pren |-> SubSeq(s, i4a, i4 - 1),
            post |-> post, postn |-> SubSeq(s, i5a, i5 - 1),
            rev |-> IF hasR THEN SubSeq(s, i5 + 2, i6 - 1) ELSE ""]
  IN IF /\ i6 = Len(s) + 1
        /\ \A k \in 1..Len(v.ns) : Fits(v.ns[k])
        /\ Fits(v.pren) /\ Fits(v.postn) /\ Fits(v.rev)
     THEN v ELSE None

Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

CmpNums(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      S == {k \in 1..n : CmpNum(a[k], b[k]) # 0}
  IN IF S = {} THEN Sgn(Len(a), Len(b)) ELSE LET k == MinOf(S) IN CmpNum(a[k], b[k])

\* First non-zero of a sequence of comparisons
FirstNZ(q) == LET S == {k \in 1..Len(q) : q[k] # 0} IN IF S = {} THEN 0 ELSE q[MinOf(S)]

CmpV(a, b) == FirstNZ(<<CmpNums(a.ns, b.ns), Sgn(a.let, b.let),
                        Sgn(a.pre, b.pre), CmpNum(a.pren, b.pren),
                        Sgn(a.post, b.post), CmpNum(a.postn, b.postn),
                        CmpNum(a.rev, b.rev)>>)

IsZero(d) == StripZeros(d) = ""

\* a is at least as specific as r and agrees with it wherever r says something
PrefixV(a, r) ==
  /\ Len(a.ns) >= Len(r.ns)
  /\ \A i \in 1..Len(r.ns) : CmpNum(a.ns[i], r.ns[i]) = 0
  /\ \/ Len(a.ns) > Len(r.ns)
     \/ /\ r.let # 0 => a.let = r.let
        /\ r.pre # PreNone => a.pre = r.pre
        /\ ~IsZero(r.pren) => CmpNum(a.pren, r.pren) = 0
        /\ r.post # 0 => a.post = r.post
        /\ ~IsZero(r.postn) => CmpNum(a.postn, r.postn) = 0
        /\ ~IsZero(r.rev) => CmpNum(a.rev, r.rev) = 0

Ops == {"=", "<", ">", "<=", ">=", "~"}
SatV(op, a, r) ==
  LET c == CmpV(a, r) IN
  CASE op = "="  -> c = 0
    [] op = "<"  -> c < 0
    [] op = ">"  -> c > 0
    [] op = "<=" -> c <= 0
    [] op = ">=" -> c >= 0
    [] op = "~"  -> PrefixV(a, r)
\* Does version string a satisfy (op, r)?  op = "" is "any version".
Satisfies(op, a, r) ==
  \/ op = ""
  \/ LET pa == ParseV(a)  pr == ParseV(r) IN pa.ok /\ pr.ok /\ SatV(op, pa, pr)
=============================================================================
