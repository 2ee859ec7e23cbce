-------------------------------- MODULE Runs --------------------------------
(* Rich-text formatting of cells.  A cell shows the text its last record put
   there; its runs are those stored with that text, and with no other: a plain
   text or any other kind of cell has none.  Runs come from the string table
   (opt.runs, one list per shared string) or with the cell itself.  Only
   loaded together with the other formatting.                                *)
EXTENDS Common
Start0 == <<>>                             \* position -> runs, where there are any
Without(f, ks) == [k \in (DOMAIN f) \ ks |-> f[k]]
Set(f, k, rs) == IF rs = <<>> THEN Without(f, {k}) ELSE (k :> rs) @@ f
Last1(e) == CASE e.op = "mulrk" -> e.c + Len(e.items) - 1 [] e.op = "mulblank" -> e.c + Len(e.xfs) - 1 [] OTHER -> e.c
Plain == {"num", "int", "rk", "mulrk", "label", "bool", "err", "blank", "mulblank", "fnum", "fstr", "fbool", "ferr", "fempty"}
Apply(st, e, opt) ==
    IF ~opt.fmt THEN st
    ELSE CASE e.op = "sst" -> Set(st, <<e.r, e.c>>, opt.runs[e.i + 1])
           [] e.op = "rstring" -> Set(st, <<e.r, e.c>>, e.runs)
           [] e.op \in Plain -> Without(st, {<<e.r, c>> : c \in (e.c)..Last1(e)})
           [] e.op \in {"row", "col", "merge", "noise"} -> st
           [] OTHER -> Assert(FALSE, <<"unknown record", e>>)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Report(st) == LET ks == SetToSortSeq(DOMAIN st, Before) IN [i \in DOMAIN ks |-> <<ks[i][1], ks[i][2], st[ks[i]]>>]
=============================================================================
