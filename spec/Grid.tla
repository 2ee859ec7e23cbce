-------------------------------- MODULE Grid --------------------------------
(* A worksheet as the machine that consumes its cell records.  The abstract
   state is what the file means, not how a reader stores it: a partial map
   from positions to (type, value, style), plus the records that give rows
   and columns a default style, plus merged ranges.                         *)
EXTENDS F64

TTEXT == 1  TNUM == 2  TDATE == 3  TBOOL == 4  TERR == 5  TBLANK == 6

\* opt: [fmt |-> BOOLEAN, ragged |-> BOOLEAN, xfd |-> sequence of 0/1 (style k
\* has a date format), sst |-> shared strings, biff2 |-> style addressing]
Empty == [cells |-> <<>>, rowxf |-> <<>>, colxf |-> <<>>, merged |-> <<>>, ixfe |-> -1]
\* a partial function is kept as a TLA+ function with domain a set of keys
Put(f, k, v) == (k :> v) @@ f

NumType(xf, opt) == IF opt.xfd[xf + 1] = 1 THEN TDATE ELSE TNUM
\* BIFF2 keeps 6 bits of style index with the cell; 63 defers to the last IXFE
\* (version 2.0 has no style records at all: each cell carries three attribute
\* bytes and the number format is the low six bits of the second)
Style(st, e) == IF Get(e, "viaixfe", FALSE) THEN st.ixfe ELSE e.xf
TypeFor(st, e, opt) == IF Has(e, "attr")
                       THEN (IF opt.fmtd[(e.attr[2] % 64) + 1] = 1 THEN TDATE ELSE TNUM)
                       ELSE NumType(Style(st, e), opt)

PutCell(st, r, c, ty, v, xf) == [st EXCEPT !.cells = Put(@, <<r, c>>, <<ty, v, xf>>)]
PutNum(st, r, c, limbs, xf, opt) == PutCell(st, r, c, NumType(xf, opt), Tok(limbs), xf)
NumCell(st, e, limbs, opt) == PutCell(st, e.r, e.c, TypeFor(st, e, opt), Tok(limbs), Style(st, e))

RECURSIVE MulRk(_, _, _, _, _)
MulRk(st, r, c, items, opt) ==
    IF items = <<>> THEN st
    ELSE MulRk(PutNum(st, r, c, Rk(items[1][2], items[1][3]), items[1][1], opt), r, c + 1, Tail(items), opt)
RECURSIVE MulBlank(_, _, _, _)
MulBlank(st, r, c, xfs) ==
    IF xfs = <<>> THEN st ELSE MulBlank(PutCell(st, r, c, TBLANK, "", xfs[1]), r, c + 1, Tail(xfs))
RECURSIVE SetCols(_, _, _, _)
SetCols(f, a, b, v) == IF a > b \/ a > 255 THEN f ELSE SetCols(Put(f, a, v), a + 1, b, v)

\* version 2: column defaults listed one by one; a width alone gives no style
RECURSIVE SetEach(_, _, _)
SetEach(f, c, xfs) == IF xfs = <<>> THEN f ELSE SetEach(Put(f, c, xfs[1]), c + 1, Tail(xfs))
RECURSIVE SetMissing(_, _, _)
SetMissing(f, a, b) == IF a > b THEN f ELSE SetMissing(IF a \in DOMAIN f THEN f ELSE Put(f, a, 15), a + 1, b)

\* ---- one action per record kind -----------------------------------------
Apply(st, e, opt) ==
    CASE e.op = "num"    -> NumCell(st, e, e.v, opt)
      [] e.op = "int"    -> NumCell(st, e, OfInt(e.v), opt)
      [] e.op = "rk"     -> PutNum(st, e.r, e.c, Rk(e.rk[1], e.rk[2]), e.xf, opt)
      [] e.op = "mulrk"  -> MulRk(st, e.r, e.c, e.items, opt)
      [] e.op = "label"  -> PutCell(st, e.r, e.c, TTEXT, e.t, Style(st, e))
      [] e.op = "rstring" -> PutCell(st, e.r, e.c, TTEXT, e.t, e.xf)
      [] e.op = "sst"    -> PutCell(st, e.r, e.c, TTEXT, opt.sst[e.i + 1], e.xf)
      [] e.op = "bool"   -> PutCell(st, e.r, e.c, TBOOL, e.v, Style(st, e))
      [] e.op = "err"    -> PutCell(st, e.r, e.c, TERR, e.v, Style(st, e))
      [] e.op = "blank"  -> IF opt.fmt THEN PutCell(st, e.r, e.c, TBLANK, "", Style(st, e)) ELSE st
      [] e.op = "mulblank" -> IF opt.fmt THEN MulBlank(st, e.r, e.c, e.xfs) ELSE st
      [] e.op = "fnum"   -> NumCell(st, e, e.v, opt)
      [] e.op = "fstr"   -> PutCell(st, e.r, e.c, TTEXT, e.t, Style(st, e))
      [] e.op = "fbool"  -> PutCell(st, e.r, e.c, TBOOL, e.v, Style(st, e))
      [] e.op = "ferr"   -> PutCell(st, e.r, e.c, TERR, e.v, Style(st, e))
      [] e.op = "fempty" -> PutCell(st, e.r, e.c, TTEXT, "", Style(st, e))
      [] e.op = "row"    -> IF opt.fmt THEN [st EXCEPT !.rowxf = Put(@, e.r, Style(st, e))] ELSE st
      [] e.op = "coldef" -> IF opt.fmt THEN [st EXCEPT !.colxf = SetEach(@, e.c, e.xfs)] ELSE st
      [] e.op = "colw"   -> IF opt.fmt THEN [st EXCEPT !.colxf = SetMissing(@, e.c1, e.c2)] ELSE st
      [] e.op = "col"    -> IF opt.fmt /\ e.c1 <= e.c2 /\ e.c2 <= 256 THEN [st EXCEPT !.colxf = SetCols(@, e.c1, e.c2, e.xf)] ELSE st
      [] e.op = "merge"  -> IF opt.fmt THEN [st EXCEPT !.merged = @ \o e.rs] ELSE st
      [] e.op = "ixfe"   -> [st EXCEPT !.ixfe = e.xf]
      [] e.op = "dim"    -> st          \* the dimension record is advisory only
      [] e.op = "noise"  -> st
      [] OTHER -> Assert(FALSE, <<"unknown record", e>>)

\* ---- what a reader must report ------------------------------------------
Keys(st) == DOMAIN st.cells
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
CellRows(st) == MaxOf({k[1] + 1 : k \in Keys(st)}, 0)
CellCols(st) == MaxOf({k[2] + 1 : k \in Keys(st)}, 0)
NRows(st) == Max2(CellRows(st), MaxOf({st.merged[i][2] : i \in DOMAIN st.merged}, 0))
NCols(st) == Max2(CellCols(st), MaxOf({st.merged[i][4] : i \in DOMAIN st.merged}, 0))

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SortedKeys(st) == SetToSortSeq(Keys(st), Before)
\* the recorded cells in reading order: <<row, col, type, value>>
CellList(st) == LET ks == SortedKeys(st)
                IN [i \in DOMAIN ks |-> <<ks[i][1], ks[i][2], st.cells[ks[i]][1], st.cells[ks[i]][2]>>]
RowWidth(st, r) == MaxOf({k[2] + 1 : k \in {x \in Keys(st) : x[1] = r}}, 0)
\* row lengths, run-length coded <<<<length, count>>, ...>>
RECURSIVE Rle(_, _)
Rle(ls, acc) == IF ls = <<>> THEN acc
                ELSE IF acc # <<>> /\ acc[Len(acc)][1] = ls[1][1]
                     THEN Rle(Tail(ls), [acc EXCEPT ![Len(acc)][2] = @ + ls[1][2]])
                     ELSE Rle(Tail(ls), Append(acc, ls[1]))
RowLens(st, ragged) ==
    LET n == NRows(st) IN
    IF n = 0 THEN {<<>>}
    ELSE IF ~ragged THEN {<<<<NCols(st), n>>>>}
    ELSE LET rows == SetToSortSeq({k[1] : k \in Keys(st)}, LAMBDA a, b : a < b)
             gap(i) == IF i = 1 THEN rows[1] ELSE rows[i] - rows[i - 1] - 1
             RECURSIVE mk(_)
             mk(i) == IF i > Len(rows) THEN <<>>
                      ELSE (IF gap(i) > 0 THEN <<<<0, gap(i)>>>> ELSE <<>>)
                           \o <<<<RowWidth(st, rows[i]), 1>>>> \o mk(i + 1)
             base == mk(1)
             extra == n - CellRows(st)
         IN IF extra = 0 THEN {Rle(base, <<>>)}
            \* rows that exist only because of a merged range; the last one may
            \* hold a single empty cell or none
            ELSE {Rle(base \o <<<<0, extra>>>>, <<>>),
                  Rle(base \o (IF extra > 1 THEN <<<<0, extra - 1>>>> ELSE <<>>) \o <<<<1, 1>>>>, <<>>)}

\* style resolution: cell, else row default, else column default, else 15
XfAt(st, r, c) ==
    IF <<r, c>> \in Keys(st) THEN st.cells[<<r, c>>][3]
    ELSE IF r \in DOMAIN st.rowxf /\ st.rowxf[r] # -1 THEN st.rowxf[r]
    ELSE IF c \in DOMAIN st.colxf THEN st.colxf[c]
    ELSE 15
=============================================================================
