------------------------------- MODULE Layout -------------------------------
(* The parts of a worksheet that are not cells: merged and label ranges, page
   breaks, row and column formatting, widths, window settings.  One action per
   record; every attribute is a variable of its own, so records about
   different things commute (checked in LayoutMC).                          *)
EXTENDS Palette

\* opt: [ver, fmt]
W2Default == <<0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0>>
Start == [merged |-> <<>>, rowlab |-> <<>>, collab |-> <<>>, hbr |-> <<>>, vbr |-> <<>>,
          rows |-> <<>>, cols |-> <<>>, defcol |-> -1, std |-> -1, gcw |-> <<>>,
          w2 |-> W2Default, fvr |-> 0, fvc |-> 0, grid |-> {64}, rgb |-> <<>>,
          cpbp |-> 0, cnorm |-> 0, scl |-> -1, pane |-> <<0, 0, 0, 0, 0, 0>>,
          drh |-> -1, drf |-> <<0, 0, 0, 0>>, pal |-> <<>>]
SetF(f, k, v) == (k :> v) @@ f
RECURSIVE SetRange(_, _, _, _)
SetRange(f, a, b, v) == IF a > b \/ a > 255 THEN f ELSE SetRange(SetF(f, a, v), a + 1, b, v)
RECURSIVE SetWidths(_, _, _, _)      \* version 2: a width keeps the style
SetWidths(f, a, b, w) ==
    IF a > b THEN f
    ELSE SetWidths(SetF(f, a, IF a \in DOMAIN f THEN [f[a] EXCEPT ![1] = w] ELSE <<w, -1, 0, 0, 0, 0>>), a + 1, b, w)
RECURSIVE SetStyles(_, _, _)
SetStyles(f, c, xfs) ==
    IF xfs = <<>> THEN f
    ELSE SetStyles(SetF(f, c, IF c \in DOMAIN f THEN [f[c] EXCEPT ![2] = xfs[1]] ELSE <<0, xfs[1], 0, 0, 0, 0>>), c + 1, Tail(xfs))

MaxRows(ver) == IF ver >= 80 THEN 65536 ELSE 16384
\* 32-bit option word of a ROW record as two halves <<lo, hi>>
RowInfo(e) == LET lo == e.bits[1]  hi == e.bits[2] IN
    <<Bits(e.h, 0, 15), Bit(e.h, 15), Bits(lo, 0, 3), Bit(lo, 4), Bit(lo, 5), Bit(lo, 6), Bit(lo, 7),
      IF Bit(lo, 7) = 1 THEN Bits(hi, 0, 12) ELSE -1, Bit(hi, 12), Bit(hi, 13)>>
ColInfo(e) == <<e.w, e.xf, Bit(e.flags, 0), Bit(e.flags, 1), Bits(e.flags, 8, 3), Bit(e.flags, 12)>>

Apply(st, e, opt) ==
    CASE e.op = "merge"  -> IF opt.fmt THEN [st EXCEPT !.merged = @ \o e.rs] ELSE st
      [] e.op = "labels" -> [st EXCEPT !.rowlab = @ \o e.rl, !.collab = @ \o e.cl]
      [] e.op = "hbr"    -> IF opt.fmt THEN [st EXCEPT !.hbr = @ \o [i \in DOMAIN e.b |->
                                IF opt.ver >= 80 THEN e.b[i] ELSE <<e.b[i][1], 0, 255>>]] ELSE st
      [] e.op = "vbr"    -> IF opt.fmt THEN [st EXCEPT !.vbr = @ \o [i \in DOMAIN e.b |->
                                IF opt.ver >= 80 THEN e.b[i] ELSE <<e.b[i][1], 0, 65535>>]] ELSE st
      [] e.op = "row"    -> IF opt.fmt /\ e.r < MaxRows(opt.ver) THEN [st EXCEPT !.rows = SetF(@, e.r, RowInfo(e))] ELSE st
      [] e.op = "row2"   -> IF opt.fmt /\ e.r < MaxRows(opt.ver)
                            THEN [st EXCEPT !.rows = SetF(@, e.r,
                                   <<Bits(e.h, 0, 15), Bit(e.h, 15), "-", "-", "-", "-", IF e.xf = -1 THEN 0 ELSE 1, e.xf, "-", "-">>)]
                            ELSE st
      [] e.op = "col"    -> IF opt.fmt /\ e.c1 <= e.c2 /\ e.c2 <= 256
                            THEN [st EXCEPT !.cols = SetRange(@, e.c1, e.c2, ColInfo(e))] ELSE st
      [] e.op = "colw"   -> IF opt.fmt /\ e.c1 <= e.c2 THEN [st EXCEPT !.cols = SetWidths(@, e.c1, e.c2, e.w)] ELSE st
      [] e.op = "coldef" -> IF opt.fmt THEN [st EXCEPT !.cols = SetStyles(@, e.c, e.xfs)] ELSE st
      [] e.op = "defcol" -> [st EXCEPT !.defcol = e.w]
      [] e.op = "std"    -> [st EXCEPT !.std = e.w]
      [] e.op = "gcw"    -> IF opt.fmt THEN [st EXCEPT !.gcw = e.on] ELSE st      \* columns whose bit is set
      [] e.op = "w2"     ->    \* version 8 window record
             [st EXCEPT !.w2 = [k \in 1..12 |-> Bit(e.o, k - 1)], !.fvr = e.fr, !.fvc = e.fc,
                        !.grid = {e.gi}, !.cpbp = e.p, !.cnorm = e.n]
      [] e.op = "w2old"  ->    \* versions 3 to 7: grid line colour stored as RGB
             [st EXCEPT !.w2 = [k \in 1..12 |-> Bit(e.o, k - 1)], !.fvr = e.fr, !.fvc = e.fc, !.rgb = e.rgb,
                        !.grid = IF opt.fmt THEN NearestIdx(ColourMap(opt.ver, st.pal), e.rgb) ELSE {0}]
      [] e.op = "w2b2"   ->    \* version 2: one byte per flag
             [st EXCEPT !.w2 = [k \in 1..12 |-> IF k <= 5 THEN (IF e.f[k] # 0 THEN 1 ELSE 0)
                                               ELSE IF k = 6 THEN e.auto ELSE st.w2[k]],
                        !.fvr = e.fr, !.fvc = e.fc, !.rgb = e.rgb,
                        !.grid = IF opt.fmt THEN NearestIdx(ColourMap(opt.ver, st.pal), e.rgb) ELSE {0}]
      [] e.op = "scl"    -> LET z == IF e.den = 0 THEN 0 ELSE (e.num * 100) \div e.den
                            IN [st EXCEPT !.scl = IF z >= 10 /\ z <= 400 THEN z ELSE 100]
      [] e.op = "pane"   -> [st EXCEPT !.pane = <<e.v, e.h, e.hf, e.vf, e.a, 1>>]
      [] e.op = "drh"    -> [st EXCEPT !.drh = e.h, !.drf = [k \in 1..4 |-> Bit(e.o, k - 1)]]
      [] e.op = "noise"  -> st
      [] OTHER -> Assert(FALSE, <<"unknown record", e>>)

\* ---- resolution rules ----------------------------------------------------
Width(st, c, ver) ==
    LET own == IF c \in DOMAIN st.cols THEN st.cols[c][1] ELSE -1
        def == IF st.defcol # -1 THEN st.defcol * 256 ELSE 2048
        first(a, b) == IF a # -1 THEN a ELSE b
    IN CASE ver >= 80 -> first(own, first(st.std, def))
         [] ver >= 40 /\ ver < 80 -> IF IsIn(c, st.gcw) THEN first(st.std, def) ELSE first(own, def)
         [] ver = 30 -> first(own, def)
         [] OTHER -> def

ValidZoom(z) == z >= 10 /\ z <= 400
\* <<page break preview, normal>> magnification
Zoom(st) ==
    IF st.w2[12] = 1
    THEN LET p == IF st.scl = -1 THEN 100 ELSE st.scl
         IN <<p, IF ValidZoom(st.cnorm) THEN st.cnorm ELSE p>>
    ELSE LET n == IF st.scl = -1 THEN 100 ELSE st.scl
         IN <<IF st.cpbp = 0 THEN 60 ELSE IF ValidZoom(st.cpbp) THEN st.cpbp ELSE n, n>>

NoneIf(x) == IF x = -1 THEN "None" ELSE x
AscKeys(f) == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b)
AsList(f) == LET k == AscKeys(f) IN [i \in DOMAIN k |-> <<k[i], f[k[i]]>>]
=============================================================================
