------------------------------ MODULE Options ------------------------------
(* Several workbooks opened at will, each with options of its own.  A book is
   what its file holds: [ver, cp (says its code page), n (worksheets), and per
   sheet cells <<row, col, type, value>> with the empty-but-formatted ones, the
   same without formatting, merged ranges, and two summaries: of what no option
   governs, and of what formatting_info governs].  What a handle shows depends on its book and its
   own options and on nothing that happened before.                         *)
EXTENDS Grid

Start == <<>>                        \* handles, in the order they were opened
Open(hs, w, o, fixedOd) == Append(hs, [w |-> w, o |-> o, loaded |-> IF o.od /\ ~fixedOd THEN {} ELSE {-1}, closed |-> FALSE])
(* reading a worksheet of a lazily opened book loads it                      *)
Load(hs, h, i) == [hs EXCEPT ![h].loaded = @ \cup {i}]
Close(hs, h) == [hs EXCEPT ![h].closed = TRUE]
(* only a sheet which was loaded can be looked at after the book is closed   *)
CanLook(hs, h, i) == ~hs[h].closed \/ hs[h].loaded \cap {-1, i} # {}

(* ---- what the options do -------------------------------------------------- *)
CellsFor(sh, o) == IF o.fmt THEN sh.cells ELSE sh.plain
(* formatting adds the blank cells; where a blank record came after another
   cell of the same address, it hides that one                              *)
BlankAt(sh) == {<<sh.cells[i][1], sh.cells[i][2]>> : i \in {j \in DOMAIN sh.cells : sh.cells[j][3] = TBLANK}}
Coherent(sh) == /\ \A i \in DOMAIN sh.plain : sh.plain[i][3] # TBLANK
                /\ Same(SelectSeq(sh.cells, LAMBDA c : c[3] # TBLANK),
                        SelectSeq(sh.plain, LAMBDA c : <<c[1], c[2]>> \notin BlankAt(sh)))
AsGrid(sh, o) == LET cs == CellsFor(sh, o)
                 IN [cells |-> [k \in {<<cs[i][1], cs[i][2]>> : i \in DOMAIN cs} |-> 0],
                     merged |-> IF o.fmt THEN sh.merged ELSE <<>>]
ShowsSheet(ob, sh, o) ==
    LET g == AsGrid(sh, o)
    IN Failing(<< <<"formatting_adds_blanks", Coherent(sh)>>,
                  <<"cells", Same(ob.cells, CellsFor(sh, o))>>,
                  <<"extent", Same(ob.nrows, NRows(g)) /\ Same(ob.ncols, NCols(g))>>,
                  <<"row_lengths", \E e \in RowLens(g, o.ragged) : Same(ob.rl, e)>>,
                  <<"ungoverned_attributes", Same(ob.core, sh.core)>>,
                  <<"formatting", o.fmt => Same(ob.fmtd, sh.fmtd)>> >>)
(* with an encoding supplied, the attributes naming the encoding may differ  *)
ShowsBook(ob, b, o) ==
    Failing(<< <<"book_attributes", Same(ob.core, IF o.enc THEN b.coreE ELSE b.core)>>,
               <<"book_formatting", o.fmt => Same(ob.fmtd, b.fmtd)>> >>)
(* messages: none by default, apart from the documented notes                *)
Silent(b, o) == /\ o.verb = 0 /\ (b.ver >= 80 \/ b.cp \/ o.enc)
                /\ ~(o.od /\ b.ver <= 45) /\ ~(b.ver = 45 /\ b.n > 1)
Talk(ob, b, o) == Failing(<< <<"stdout", Same(ob.std, 0)>>,
                             <<"silent_by_default", Silent(b, o) => Same(ob.log, 0)>> >>)
=============================================================================
