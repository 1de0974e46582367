---- MODULE Contain ----
(* Containment. Part one: the lookup of a path name in a root that lies in a larger world, one name at a time; the  *)
(* links of the root point anywhere. Part two: the place of a URL's file inside a cache directory, from the names of *)
(* the URL's path and the entity tag.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NVariant
NBase == <<"W", "base">>
(* the world: directories and files besides the links of the root *)
NDirs == {<<>>, <<"W">>, <<"W", "base">>, <<"W", "base", "a">>, <<"W", "base", "W">>, <<"W", "base", "W", "out">>, <<"W", "out">>, <<"W", "out", "a">>, <<"W", "base-evil">>}
NFiles == {<<"W", "base", "f">>, <<"W", "base", "a", "f">>, <<"W", "out", "f">>, <<"W", "out", "a", "f">>, <<"W", "f">>, <<"W", "base-evil", "f">>}
NLinkAt == {<<"W", "base", "L">>, <<"W", "base", "a", "M">>}
NT(abs, p) == [abs |-> abs, p |-> p]
NTargets == {NT(FALSE, <<"a">>), NT(FALSE, <<"f">>), NT(FALSE, <<"..", "out">>), NT(FALSE, <<"..", "..", "W", "out", "f">>), NT(TRUE, <<"W", "out">>),
             NT(TRUE, <<"W", "out", "f">>), NT(TRUE, <<>>), NT(FALSE, <<"..", "base-evil">>), NT(FALSE, <<"a", "..", "..", "f">>), NT(FALSE, <<"..", "a", "M">>), NT(FALSE, <<"L">>), NT(TRUE, <<"..", "out">>)}
NNames == {"a", "L", "M", "f", "..", "W", "out"}
IsIn(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = NBase
NUp(p) == IF p = <<>> THEN p ELSE Front(p)
Jail(p) == IF IsIn(p) THEN p ELSE NBase
(* one name: [at, left, n]; at <<"?">>: nothing there; the code cleans names lexically nowhere in the jail *)
NGo(links, s) ==
  IF s.left = <<>> \/ s.at = <<"?">> THEN s ELSE
  LET c == Head(s.left)  l == Tail(s.left) IN
  IF s.at \notin NDirs THEN [s EXCEPT !.at = <<"?">>] ELSE
  IF c = ".." THEN [s EXCEPT !.left = l, !.at = IF s.at = NBase /\ NVariant # "parent" /\ (NVariant # "oslinks" \/ s.n = 0) THEN NBase ELSE NUp(s.at)] ELSE
  LET q == Append(s.at, c) IN
  IF q \in NLinkAt THEN
     IF s.n >= 6 THEN [s EXCEPT !.at = <<"?">>]
     ELSE [at |-> IF links[q].abs THEN (IF NVariant \in {"oslinks", "abslinks"} THEN <<>> ELSE NBase) ELSE s.at, left |-> links[q].p \o l, n |-> s.n + 1]
  ELSE [s EXCEPT !.left = l, !.at = IF q \in NDirs \cup NFiles THEN q ELSE <<"?">>]
NStart(p) == [at |-> NBase, left |-> p, n |-> 0]
(* where it ends, without recursion: a lookup has a bounded number of steps *)
NEnd(links, p) == FoldLeft(LAMBDA s, i : NGo(links, s), NStart(p), [i \in 1..40 |-> i]).at
(* --- the cache --- *)
NSeg == {"..", ".", "", "x", "y.apk"}
(* what path.Clean makes of an absolute path *)
NClean(p) == FoldLeft(LAMBDA acc, c : IF c \in {"", "."} THEN acc ELSE IF c = ".." THEN NUp(acc) ELSE Append(acc, c), <<>>, p)
NOpaque(p) == "%" \o FoldLeft(LAMBDA s, c : s \o "%2F" \o c, "", p)    \* one name, never "." or ".."
NEsc(tag) == "t" \o FoldLeft(LAMBDA s, c : s \o "%2F" \o c, "", tag)
CachePlace(p, tag) ==
  LET q == IF NVariant = "noclean" THEN p ELSE NClean(p)
      n == Len(q) IN
  IF n = 0 THEN <<>>     \* refused
  ELSE <<"C", NOpaque(SubSeq(q, 1, IF n < 2 THEN 0 ELSE n - 2)), IF n >= 2 THEN q[n - 1] ELSE ".", q[n]>> \o (IF NVariant = "rawtag" THEN tag ELSE <<NEsc(tag)>>)
====
