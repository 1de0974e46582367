------------------------------ MODULE SignIndex -----------------------------
(* Signing an index file.  The file is a sequence of parts: "i1".."iN" are  *)
(* the chunks of the unsigned index, "s" is a signature section over them.  *)
(* A signer may be killed, or a write may fail, between any two steps.      *)
(* Strategy "replace" is what the implementation does (write a temporary    *)
(* file, take over the mode, rename); "inplace" truncates and rewrites, and *)
(* must be found to violate Complete.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SNChunks, SStrategy, SKeys
SOld == [content |-> [k \in 1..SNChunks |-> k], signer |-> 0]
\* a file: signer (0 none), which chunks follow, complete or not
VARIABLES sfile, stemp, spc, skey, slog, smode, stmode, sread
svars == <<sfile, stemp, spc, skey, slog, smode, stmode, sread>>
None == [content |-> <<>>, signer |-> -1]
Init == /\ sfile = SOld /\ stemp = None /\ spc = "idle" /\ skey = 0 /\ slog = <<>>
        /\ smode \in {0, 1} /\ stmode = 0 /\ sread = None
Signed(f) == f.signer > 0
Start == /\ spc = "idle" /\ Len(slog) < 3 /\ \E k \in SKeys : skey' = k
         /\ spc' = IF Signed(sfile) THEN "idle" ELSE "read"
         /\ slog' = Append(slog, IF Signed(sfile) THEN <<"noop", sfile>> ELSE <<"start", sfile>>)
         /\ UNCHANGED <<sfile, stemp, smode, stmode, sread>>
Read == spc = "read" /\ sread' = sfile /\ spc' = "open" /\ UNCHANGED <<sfile, stemp, skey, slog, smode, stmode>>
Empty == [content |-> <<>>, signer |-> 0]
Open == /\ spc = "open" /\ spc' = "sig"
        /\ IF SStrategy = "replace" THEN stemp' = Empty /\ stmode' = 0 /\ UNCHANGED sfile ELSE sfile' = Empty /\ UNCHANGED <<stemp, stmode>>
        /\ UNCHANGED <<skey, slog, smode, sread>>
Target == IF SStrategy = "replace" THEN stemp ELSE sfile
SetTarget(f) == IF SStrategy = "replace" THEN stemp' = f /\ UNCHANGED sfile ELSE sfile' = f /\ UNCHANGED stemp
WSig == spc = "sig" /\ SetTarget([Target EXCEPT !.signer = skey]) /\ spc' = "data" /\ UNCHANGED <<skey, slog, smode, stmode, sread>>
WData == /\ spc = "data" /\ Len(Target.content) < Len(sread.content)
         /\ SetTarget([Target EXCEPT !.content = Append(@, sread.content[Len(@) + 1])])
         /\ UNCHANGED <<spc, skey, slog, smode, stmode, sread>>
Chmod == spc = "data" /\ Len(Target.content) = Len(sread.content) /\ stmode' = smode /\ spc' = "move" /\ UNCHANGED <<sfile, stemp, skey, slog, smode, sread>>
Move == /\ spc = "move" /\ spc' = "idle" /\ slog' = Append(slog, <<"done", skey>>)
        /\ IF SStrategy = "replace" THEN sfile' = stemp /\ stemp' = None /\ smode' = stmode ELSE UNCHANGED <<sfile, stemp, smode>>
        /\ UNCHANGED <<skey, stmode, sread>>
\* a failed write removes the temporary file and returns an error; a crash leaves it behind
Fail == /\ spc \in {"read", "open", "sig", "data", "move"} /\ spc' = "idle" /\ stemp' = None /\ slog' = Append(slog, <<"error", 0>>)
        /\ UNCHANGED <<sfile, skey, smode, stmode, sread>>
Crash == spc # "idle" /\ spc' = "idle" /\ slog' = Append(slog, <<"crash", 0>>) /\ UNCHANGED <<sfile, stemp, skey, smode, stmode, sread>>
Next == Start \/ Read \/ Open \/ WSig \/ WData \/ Chmod \/ Move \/ Fail \/ Crash
SBound == Len(slog) <= 6
(* ---- the property ---- *)
New(f) == f.signer \in SKeys /\ f.content = SOld.content
Complete == sfile = SOld \/ New(sfile)
DoneIsNew == slog # <<>> /\ slog[Len(slog)][1] = "done" /\ spc = "idle" => New(sfile) /\ sfile.signer = slog[Len(slog)][2]
OnceSigned == [][Signed(sfile) => sfile' = sfile]_svars
KeepsMode == [][smode' = smode]_svars
=============================================================================
