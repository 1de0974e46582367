------------------------------ MODULE ExpandMC -----------------------------
(* The reader of a package: member after member, cell by cell, then the     *)
(* comparison with what was promised.  EVariant names defective readers:    *)
(* two (a signed package may end after its control section), ahead (reads   *)
(* beyond the end of a section), tail (ignores what follows the first       *)
(* member of the data), nocrc, noctl, nodat, eof (an end inside the data    *)
(* is an end), anysig (the first of three sections is the signature,        *)
(* whatever it is).                                                         *)
EXTENDS Expand, Json
CONSTANTS EVariant, ENd
VARIABLES esgn, ectl, edat, end_, eed, epro, edec, epos, eout, ecur, emax, estat
evars == <<esgn, ectl, edat, end_, eed, epro, edec, epos, eout, ecur, emax, estat>>
MS == Whole(esgn, ectl, edat, end_)
In == Edited(MS, eed)
Init == /\ esgn \in BOOLEAN /\ ectl \in 1..2 /\ edat \in 1..2 /\ end_ \in 1..ENd /\ eed \in Edits(MS)
        /\ epro \in 0..1 /\ edec \in 0..1 /\ epos = 0 /\ eout = <<>> /\ ecur = <<>> /\ emax = 2 /\ estat = "start"
Last == Len(eout) + 1 >= emax                 \* reading the data section
More == epos < Len(In)
Cell == In[epos + 1]
Fail == estat' = "err" /\ UNCHANGED <<epos, eout, ecur, emax>>
Verify(o) == LET n == Len(o) c == o[n - 1] d == o[n] IN
             /\ (EVariant = "noctl" \/ epro = 0 \/ (\A i \in 1..Len(c) : c[i].id = epro /\ c[i].s = "ctl"))
             /\ (EVariant = "nodat" \/ edec = 0 \/ d = Cat(SubSeq(Whole(FALSE, 0, edec, end_), 2, end_ + 1)))
Finish(o, m) == IF Len(o) = m \/ (EVariant = "two" /\ Len(o) \in 2..3) THEN (IF Verify(o) THEN estat' = "ok" ELSE estat' = "err") ELSE estat' = "err"
Start == estat = "start" /\ UNCHANGED emax
         /\ IF ~More THEN IF ecur # <<>> THEN eout' = Append(eout, ecur) /\ ecur' = <<>> /\ UNCHANGED epos /\ Finish(eout', emax)
                                         ELSE UNCHANGED <<epos, eout, ecur>> /\ Finish(eout, emax)
            ELSE IF EVariant = "tail" /\ ecur # <<>> /\ Last THEN eout' = Append(eout, ecur) /\ ecur' = <<>> /\ UNCHANGED epos /\ Finish(eout', emax)
            ELSE IF Cell.k # "h" \/ ~Cell.ok THEN Fail
            ELSE epos' = epos + 1 /\ ecur' = Append(ecur, Cell) /\ estat' = "in" /\ UNCHANGED eout
Inside == estat = "in"
         /\ IF ~More THEN IF EVariant = "eof" /\ Last THEN eout' = Append(eout, ecur) /\ ecur' = <<>> /\ UNCHANGED <<epos, emax>> /\ Finish(eout', emax) ELSE Fail
            ELSE IF ~Cell.ok /\ EVariant # "nocrc" THEN Fail
            ELSE IF Cell.k = "b" THEN epos' = epos + 1 /\ ecur' = Append(ecur, Cell) /\ UNCHANGED <<eout, emax, estat>>
            ELSE IF Last THEN epos' = epos + 1 /\ ecur' = Append(ecur, Cell) /\ estat' = "start" /\ UNCHANGED <<eout, emax>>
            ELSE LET n == IF EVariant = "ahead" /\ epos + 1 < Len(In) THEN 2 ELSE 1 IN
                 /\ epos' = epos + n /\ eout' = Append(eout, ecur \o SubSeq(In, epos + 1, epos + n)) /\ ecur' = <<>> /\ estat' = "start"
                 /\ emax' = IF Len(eout) = 0 /\ (Cell.s = "sig" \/ EVariant = "anysig") THEN 3 ELSE emax
Next == (Start \/ Inside) /\ UNCHANGED <<esgn, ectl, edat, end_, eed, epro, edec>>
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)
Roles == LET n == Len(eout) IN (n = 3 => \A c \in {eout[1][i] : i \in 1..Len(eout[1])} : c.s = "sig") /\ (eed.k \in {"drop", "dup"} \/ (\A c \in {eout[n - 1][i] : i \in 1..Len(eout[n - 1])} : c.s = "ctl"))
Exact == estat = "ok" => Cat(eout) = In /\ (\A i \in 1..Len(In) : In[i].ok) /\ Roles
\* an archive that ends early is noticed, unless it ends between members of data nobody declared
Truncated == estat = "ok" /\ eed.k = "cut" => edec = 0 /\ end_ > 1
Promise == estat = "ok" => LET n == Len(eout) IN (epro # 0 => \A i \in 1..Len(eout[n - 1]) : eout[n - 1][i].id = epro /\ eout[n - 1][i].s = "ctl") /\ (edec # 0 => eout[n] = Cat(SubSeq(Whole(FALSE, 0, edec, end_), 2, end_ + 1)))
Intact == estat = "err" => eed.k # "none" \/ (epro # 0 /\ epro # ectl) \/ (edec # 0 /\ edec # edat)
Ends == <>(estat \in {"ok", "err"})
NoNext == FALSE /\ UNCHANGED evars
Generate == epos > 0 \/ estat # "start" \/ PrintT("GEN " \o ToJson([sgn |-> esgn, ctl |-> ectl, dat |-> edat, nd |-> end_, ed |-> eed, pro |-> epro, dec |-> edec]))
=============================================================================
