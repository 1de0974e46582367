------------------------------ MODULE Strings ------------------------------
(* Helpers over strings: characters, digit strings compared as numbers,     *)
(* byte order.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Char(s, i) == SubSeq(s, i, i)
Digits == "0123456789"
Lower  == "abcdefghijklmnopqrstuvwxyz"
\* Position of character c in string t, 0 if it does not occur.
Pos(c, t) == LET S == {i \in 1..Len(t) : SubSeq(t, i, i) = c}
             IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
DigitSet == TLCEval({Char(Digits, i) : i \in 1..Len(Digits)})
LowerSet == TLCEval({Char(Lower, i) : i \in 1..Len(Lower)})
DigitVal == TLCEval([c \in DigitSet |-> Pos(c, Digits) - 1])
IsDigit(c) == c \in DigitSet
IsLower(c) == c \in LowerSet
HasPrefixAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
StartsWith(s, p) == HasPrefixAt(s, 1, p)
(* No RECURSIVE operators here: TLC does not precompute constant            *)
(* definitions that reach one.                                              *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* End (exclusive) of the run of digits starting at i.
DigitRun(s, i) == LET S == {k \in i..Len(s) : ~IsDigit(Char(s, k))} IN IF S = {} THEN Len(s) + 1 ELSE MinOf(S)
StripZeros(d) == LET S == {k \in 1..Len(d) : Char(d, k) # "0"} IN IF S = {} THEN "" ELSE SubSeq(d, MinOf(S), Len(d))
CmpDigits(a, b) ==
  LET S == {k \in 1..Len(a) : Char(a, k) # Char(b, k)}
  IN IF S = {} THEN 0
     ELSE LET k == MinOf(S) IN IF DigitVal[Char(a, k)] < DigitVal[Char(b, k)] THEN -1 ELSE 1
\* Digit strings compared as (unbounded) numbers; "" is zero.
CmpNum(a0, b0) == LET a == StripZeros(a0)  b == StripZeros(b0)
                  IN IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpDigits(a, b)
\* Printable ASCII in byte order.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiOrd == TLCEval([c \in {Char(Ascii, i) : i \in 1..Len(Ascii)} |-> Pos(c, Ascii)])
CmpStr(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      S == {k \in 1..n : Char(a, k) # Char(b, k)}
  IN IF S # {} THEN LET k == MinOf(S) IN IF AsciiOrd[Char(a, k)] < AsciiOrd[Char(b, k)] THEN -1 ELSE 1
     ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
StrLess(a, b) == CmpStr(a, b) < 0
====
