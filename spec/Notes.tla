-------------------------------- MODULE Notes --------------------------------
(* Cell notes as a machine over drawing-object, text-object and note records.
   A text object belongs to the drawing object record just before it; a note
   takes the text of the object it names.  Before version 8 a note carries its
   own text, in one record or in several.                                    *)
EXTENDS Text
Start0 == [obj |-> 0, txt |-> <<>>, notes |-> <<>>]      \* txt: object id -> [u, rs]
\* an object record counts when its first sub-record is the common-object one
ObjId(b) == IF Len(b) >= 10 /\ U16(b, 0) = 21 /\ U16(b, 2) = 18 THEN U16(b, 6) ELSE 0
RunsOf(parts) == LET b == FlattenSeq(parts) IN [i \in 1..(Len(b) \div 8) |-> <<U16(b, 8 * (i - 1)), U16(b, 8 * (i - 1) + 2)>>]
RECURSIVE Trim(_, _)   \* formatting runs that start at the end of the text format nothing
Trim(rs, n) == IF rs # <<>> /\ rs[Len(rs)][1] = n THEN Trim(SubSeq(rs, 1, Len(rs) - 1), n) ELSE rs
Apply(st, e, opt) ==
    CASE e.op = "obj" -> [st EXCEPT !.obj = IF opt.ver >= 80 THEN ObjId(e.b) ELSE 0]
      [] e.op = "txo" ->
           IF opt.ver < 80 \/ st.obj = 0 THEN st
           ELSE [st EXCEPT !.obj = 0,
                    !.txt = (st.obj :> [u |-> Chars(e.text, e.n), rs |-> Trim(RunsOf(e.runs), e.n)]) @@ @]
      [] e.op = "note" ->
           IF opt.ver < 80
           THEN [st EXCEPT !.notes = (<<e.r, e.c>> :> [a |-> <<>>, show |-> 0, rh |-> 0, ch |-> 0, u |-> e.u, rs |-> <<<<0, 0>>>>]) @@ @]
           ELSE IF e.id \notin DOMAIN st.txt THEN st
           ELSE LET t == st.txt[e.id] IN
                [st EXCEPT !.notes = (<<e.r, e.c>> :> [a |-> e.a, show |-> Bit(e.fl, 1), rh |-> Bit(e.fl, 7), ch |-> Bit(e.fl, 8),
                                                       u |-> t.u, rs |-> t.rs]) @@ @]
      [] OTHER -> st
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Report(st) == LET ks == SetToSortSeq(DOMAIN st.notes, Before)
              IN [i \in DOMAIN ks |-> LET n == st.notes[ks[i]] IN
                    <<ks[i][1], ks[i][2], n.a, n.show, n.rh, n.ch, n.u, n.rs>>]
=============================================================================
