------------------------------ MODULE Formula ------------------------------
(* Formula cells and the records around them as a machine: a formula whose
   result is text leaves the sheet waiting for the STRING record that carries
   it; at most one shared-formula, array or table record may come between, and
   continuation records may extend it.  Everything else is decided by the eight
   result bytes alone.                                                       *)
EXTENDS F64, Text
TTEXT == 1  TNUM == 2  TDATE == 3  TBOOL == 4  TERR == 5
Start0 == [cells |-> <<>>, pend |-> <<>>, aux |-> 0, ok |-> TRUE]
Put(st, r, c, ty, v) == [st EXCEPT !.cells = (<<r, c>> :> <<ty, v>>) @@ @]
IsSpecial(b) == b[7] = 255 /\ b[8] = 255
Limbs(b) == <<b[7] + 256 * b[8], b[5] + 256 * b[6], b[3] + 256 * b[4], b[1] + 256 * b[2]>>
NType(xf, opt) == IF opt.xfd[xf + 1] = 1 THEN TDATE ELSE TNUM
\* text of a STRING record (and its continuations): counted 16-bit units from
\* version 8 on, bytes in the workbook's encoding before
StringText(e, opt) == IF opt.ver >= 80 THEN Chars(e.parts, e.n) ELSE e.u
Apply(st, e, opt) ==
    CASE e.op = "f" ->
          IF st.pend # <<>> THEN [st EXCEPT !.ok = FALSE]
          ELSE IF ~IsSpecial(e.b) THEN Put(st, e.r, e.c, NType(e.xf, opt), Tok(Limbs(e.b)))
          ELSE (CASE e.b[1] = 0 -> [st EXCEPT !.pend = <<e.r, e.c>>, !.aux = 0]
                  [] e.b[1] = 1 -> Put(st, e.r, e.c, TBOOL, e.b[3])
                  [] e.b[1] = 2 -> Put(st, e.r, e.c, TERR, e.b[3])
                  [] e.b[1] = 3 -> Put(st, e.r, e.c, TTEXT, <<>>)
                  [] OTHER -> [st EXCEPT !.ok = FALSE])
      [] e.op = "aux" -> IF st.pend # <<>> /\ st.aux = 1 THEN [st EXCEPT !.ok = FALSE]
                         ELSE [st EXCEPT !.aux = 1]
      [] e.op = "str" -> IF st.pend = <<>> THEN [st EXCEPT !.ok = FALSE]
                         ELSE [Put(st, st.pend[1], st.pend[2], TTEXT, StringText(e, opt)) EXCEPT !.pend = <<>>]
      [] e.op = "num" -> IF st.pend # <<>> THEN [st EXCEPT !.ok = FALSE]
                         ELSE Put(st, e.r, e.c, NType(e.xf, opt), Tok(e.v))
      [] e.op = "label" -> IF st.pend # <<>> THEN [st EXCEPT !.ok = FALSE] ELSE Put(st, e.r, e.c, TTEXT, e.u)
      [] OTHER -> Assert(FALSE, e)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
CellList(st) == LET ks == SetToSortSeq(DOMAIN st.cells, Before)
                IN [i \in DOMAIN ks |-> <<ks[i][1], ks[i][2], st.cells[ks[i]][1], st.cells[ks[i]][2]>>]
=============================================================================
