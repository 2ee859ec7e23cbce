------------------------------- MODULE TextMC -------------------------------
(* Every legal way a writer can lay a string table out over records.  The
   writer emits one item at a time (a header, a unit, a run, a phonetic byte)
   and before any item may close the current part; after closing inside
   characters it picks the width of the next piece.  Every finished layout must
   decode to the table it was written from, and is exported.                 *)
EXTENDS Text
CONSTANTS MaxBreaks, Export
VARIABLES tab, i, j, ph, w, done, cur, brk
vars == <<tab, i, j, ph, w, done, cur, brk>>
\* table entries: [u |-> units, rs |-> runs, np |-> phonetic byte count]
A == 97  E == 8364  H == 55357  L == 56832
\* (w is the width the writer uses for the piece being written)
T1 == << [u |-> <<A, E>>, rs |-> <<>>, np |-> 0], [u |-> <<>>, rs |-> <<>>, np |-> 0], [u |-> <<A, 233, A>>, rs |-> <<<<1, 5>>>>, np |-> 0] >>
T2 == << [u |-> <<A, H, L>>, rs |-> <<<<0, 6>>, <<2, 7>>>>, np |-> 2], [u |-> <<A>>, rs |-> <<>>, np |-> 0] >>
T3 == << [u |-> <<A, A>>, rs |-> <<>>, np |-> 3], [u |-> <<E>>, rs |-> <<<<0, 9>>>>, np |-> 0], [u |-> <<>>, rs |-> <<>>, np |-> 2] >>
T4 == << [u |-> <<>>, rs |-> <<<<0, 3>>>>, np |-> 1], [u |-> <<H, L, H, L>>, rs |-> <<>>, np |-> 0] >>
TableSet == {T1, T2, T3, T4}
NeedWide(us) == \E k \in DOMAIN us : us[k] > 255
HeadB(x, wd) == <<Len(x.u) % 256, Len(x.u) \div 256, wd + (IF x.np > 0 THEN 4 ELSE 0) + (IF x.rs # <<>> THEN 8 ELSE 0)>>
               \o (IF x.rs # <<>> THEN <<Len(x.rs), 0>> ELSE <<>>)
               \o (IF x.np > 0 THEN <<x.np, 0, 0, 0>> ELSE <<>>)
UnitB(u, wd) == IF wd = 1 THEN <<u % 256, u \div 256>> ELSE <<u>>
Init == /\ tab \in TableSet /\ i = 1 /\ j = 0 /\ ph = "head" /\ w = 0 /\ done = <<>>
        /\ cur = <<Len(tab), 0, 0, 0, Len(tab), 0, 0, 0>> /\ brk = 0
Fin == i > Len(tab)
e == tab[i]
\* where the writer goes after finishing a stage of the current string
Next2(p, jj) == IF p = "chars" /\ jj < Len(e.u) THEN <<"chars", jj, i>>
               ELSE IF p = "chars" THEN (IF e.rs # <<>> THEN <<"runs", 0, i>> ELSE IF e.np > 0 THEN <<"phon", 0, i>> ELSE <<"head", 0, i + 1>>)
               ELSE IF p = "runs" THEN (IF jj < Len(e.rs) THEN <<"runs", jj, i>> ELSE IF e.np > 0 THEN <<"phon", 0, i>> ELSE <<"head", 0, i + 1>>)
               ELSE (IF jj < e.np THEN <<"phon", jj, i>> ELSE <<"head", 0, i + 1>>)
Go(p, jj) == LET n == Next2(p, jj) IN ph' = n[1] /\ j' = n[2] /\ i' = n[3]
\* widths usable from unit jj on, up to the end of the string (a later break may
\* change it again, so a narrow piece may be closed just before a wide unit)
WidthOk(jj, wd) == wd = 1 \/ e.u[jj + 1] <= 255
Emit == /\ ~Fin
        /\ CASE ph = "head" ->
                /\ \E wd \in {0, 1} :
                    /\ (e.u = <<>> => wd = 0)
                    /\ cur' = cur \o HeadB(e, wd) /\ w' = wd
                /\ Go("chars", 0)
             [] ph = "chars" ->
                /\ WidthOk(j, w)
                /\ cur' = cur \o UnitB(e.u[j + 1], w) /\ UNCHANGED w
                /\ Go("chars", j + 1)
             [] ph = "runs" ->
                /\ cur' = cur \o <<e.rs[j + 1][1], 0, e.rs[j + 1][2], 0>> /\ UNCHANGED w
                /\ Go("runs", j + 1)
             [] ph = "phon" ->
                /\ cur' = Append(cur, 171) /\ UNCHANGED w
                /\ Go("phon", j + 1)
        /\ UNCHANGED <<tab, done, brk>>
Break == /\ ~Fin /\ brk < MaxBreaks /\ Len(cur) > 0
         /\ (ph = "chars" => Len(cur) > 1 \/ done = <<>>)
         /\ done' = Append(done, cur) /\ brk' = brk + 1
         /\ IF ph = "chars" THEN \E wd \in {0, 1} : w' = wd /\ cur' = <<wd>>
            ELSE cur' = <<>> /\ UNCHANGED w
         /\ UNCHANGED <<tab, i, j, ph>>
Next == Emit \/ Break
Spec == Init /\ [][Next]_vars
Layout == IF cur = <<>> THEN done ELSE Append(done, cur)
Want == [k \in DOMAIN tab |-> [u |-> tab[k].u, rs |-> tab[k].rs]]
Decoded == Fin => RunText(Start(Len(tab), 8), Layout) = [RunText(Start(Len(tab), 8), Layout) EXCEPT !.out = Want, !.ph = "done"]
Exported == (Export /\ Fin) => PrintT("S|" \o ToJson([parts |-> Layout, n |-> Len(tab)]))
=============================================================================
