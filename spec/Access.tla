------------------------------- MODULE Access -------------------------------
(* The reading interface of an opened sheet: every accessor is a query on the
   one grid that the records of the sheet denote (module Grid), with Python
   index and slice semantics; only row iterators have state of their own.    *)
EXTENDS Grid

None == "None"
(* Python slicing of a sequence of length n: the 0-based bounds lo..hi-1.    *)
LowBound(n, s) == IF s < 0 THEN Max2(s + n, 0) ELSE Min2(s, n)
HighBound(n, e) == IF Same(e, None) THEN n ELSE IF e < 0 THEN Max2(e + n, 0) ELSE Min2(e, n)
SliceIdx(n, s, e) == LET lo == LowBound(n, s) hi == HighBound(n, e)
                     IN [k \in 1..Max2(hi - lo, 0) |-> lo + k - 1]
InRange(n, i) == i < n /\ i >= 0 - n
Norm(n, i) == IF i < 0 THEN i + n ELSE i

(* the grid of the sheet; a padded row is as wide as the sheet              *)
RowLen(st, opt, r) == IF opt.ragged THEN RowWidth(st, r) ELSE NCols(st)
Padded(st, opt, r, c) ==
   LET k == <<r, c>> xf == IF opt.fmt THEN XfAt(st, r, c) ELSE None
   IN IF k \in Keys(st) THEN <<st.cells[k][1], st.cells[k][2], xf>> ELSE <<0, "", xf>>

Part(cell, what) == CASE what = "value" -> cell[2] [] what = "type" -> cell[1] [] what = "xf" -> cell[3] [] OTHER -> cell

Error == "E"
Cell1(st, opt, r, c, what) ==
   IF ~InRange(NRows(st), r) THEN Error
   ELSE LET rr == Norm(NRows(st), r) n == RowLen(st, opt, rr)
        IN IF what = "xf" /\ ~opt.fmt THEN Error
           ELSE IF ~InRange(n, c) THEN Error ELSE Part(Padded(st, opt, rr, Norm(n, c)), what)
RowSlice(st, opt, r, s, e, what) ==
   IF ~InRange(NRows(st), r) THEN Error
   ELSE LET rr == Norm(NRows(st), r) ix == SliceIdx(RowLen(st, opt, rr), s, e)
        IN [k \in DOMAIN ix |-> Part(Padded(st, opt, rr, ix[k]), what)]
ColSlice(st, opt, c, s, e, what) ==
   LET ix == SliceIdx(NRows(st), s, e)
   IN IF \E k \in DOMAIN ix : ~InRange(RowLen(st, opt, ix[k]), c) THEN Error
      ELSE [k \in DOMAIN ix |-> Part(Padded(st, opt, ix[k], Norm(RowLen(st, opt, ix[k]), c)), what)]

(* one request: its answer, and the iterators afterwards (position of each)  *)
Answer(st, opt, its, q) ==
   CASE q.f = "nrows" -> NRows(st)
     [] q.f = "ncols" -> NCols(st)
     [] q.f = "row_len" -> IF InRange(NRows(st), q.r) THEN RowLen(st, opt, Norm(NRows(st), q.r)) ELSE Error
     [] q.f \in {"cell", "item2"} -> Cell1(st, opt, q.r, q.c, "cell")
     [] q.f = "cell_value" -> Cell1(st, opt, q.r, q.c, "value")
     [] q.f = "cell_type" -> Cell1(st, opt, q.r, q.c, "type")
     [] q.f = "cell_xf_index" -> Cell1(st, opt, q.r, q.c, "xf")
     [] q.f \in {"row", "item1"} -> RowSlice(st, opt, q.r, 0, None, "cell")
     [] q.f = "row_slice" -> RowSlice(st, opt, q.r, q.s, q.e, "cell")
     [] q.f = "row_values" -> RowSlice(st, opt, q.r, q.s, q.e, "value")
     [] q.f = "row_types" -> RowSlice(st, opt, q.r, q.s, q.e, "type")
     [] q.f \in {"col", "col_slice"} -> ColSlice(st, opt, q.c, q.s, q.e, "cell")
     [] q.f = "col_values" -> ColSlice(st, opt, q.c, q.s, q.e, "value")
     [] q.f = "col_types" -> ColSlice(st, opt, q.c, q.s, q.e, "type")
     [] q.f = "iter" -> None
     [] q.f = "next" -> IF its[q.i] < NRows(st) THEN RowSlice(st, opt, its[q.i], 0, None, "cell") ELSE "stop"
     [] q.f = "rest" -> [k \in 1..(NRows(st) - its[q.i]) |-> RowSlice(st, opt, its[q.i] + k - 1, 0, None, "cell")]
IterAfter(st, its, q) ==
   CASE q.f = "iter" -> Append(its, 0)
     [] q.f = "next" -> [its EXCEPT ![q.i] = Min2(@ + 1, NRows(st))]
     [] q.f = "rest" -> [its EXCEPT ![q.i] = NRows(st)]
     [] OTHER -> its
=============================================================================
