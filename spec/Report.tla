------------------------------- MODULE Report -------------------------------
(* The command-line reporter: a machine that goes through the files named on
   the command line, says of each whether it could be opened, and lists what
   the command asks for.  The report is a sequence of lines, given here as
   records.                                                                  *)
EXTENDS Dates, CellNames

(* ---- which rows of a sheet of n rows a command shows, in order ---- *)
RowsOf(cmd, n) ==
    CASE cmd = "show" -> [i \in 1..n |-> i - 1]
      [] cmd \in {"2rows", "3rows"} ->
           LET k == IF cmd = "2rows" THEN 1 ELSE 2
               head == IF n <= k THEN n ELSE k
           IN [i \in 1..head |-> i - 1] \o (IF n > k THEN <<n - 1>> ELSE <<>>)
      [] OTHER -> <<>>
(* the same as the loop a reporter runs: most rows up to a limit, then the last *)
LoopRows(limit, n) ==
    LET m == IF limit < n THEN limit ELSE n
    IN [i \in 1..(IF m = 0 THEN 0 ELSE m - 1) |-> i - 1] \o (IF m > 0 THEN <<n - 1>> ELSE <<>>)

(* runs <<first, last>> of consecutive shown rows of a sheet with no gaps     *)
RowRuns(cmd, n) ==
    IF n = 0 \/ cmd \notin {"show", "2rows", "3rows"} THEN <<>>
    ELSE LET k == IF cmd = "2rows" THEN 1 ELSE 2
         IN IF cmd = "show" \/ n <= k + 1 THEN << <<0, n - 1>> >> ELSE << <<0, k - 1>>, <<n - 1, n - 1>> >>
SumMax(s) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, s)

(* ---- cells: [r, c, k, xf, ...]; k = "empty" for the cells in between ---- *)
ErrText == (0 :> "#NULL!") @@ (7 :> "#DIV/0!") @@ (15 :> "#VALUE!") @@ (23 :> "#REF!") @@ (29 :> "#NAME?") @@ (36 :> "#NUM!") @@ (42 :> "#N/A")
Hex1 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex2(n) == Hex1[(n \div 16) + 1] \o Hex1[(n % 16) + 1]
ErrShown(n) == IF n \in DOMAIN ErrText THEN ErrText[n] ELSE "<Unknown error code 0x" \o Hex2(n) \o ">"
DateShown(md, c) == LET r == CHOOSE x \in AsTuple([mode |-> md, neg |-> c.neg, day |-> c.day, num |-> c.q, exp |-> 2, up |-> FALSE]) : TRUE
                    IN IF Has(r, "e") THEN <<5, r.e>> ELSE <<3, r.v>>
\* <<type, value>>
CellShown(md, c) ==
    CASE c.k = "num" -> <<2, c.v>>
      [] c.k = "text" -> <<1, c.v>>
      [] c.k = "bool" -> <<4, c.v>>
      [] c.k = "err" -> <<5, ErrShown(c.v)>>
      [] c.k = "blank" -> <<6, <<>> >>
      [] c.k = "date" -> DateShown(md, c)
      [] OTHER -> <<0, <<>> >>
DefaultXf == 15

(* ---- a sheet under the options o = [fmt, rag, ...] ---- *)
Counted(sh, o) == SelectSeq(sh.cells, LAMBDA c : o.fmt \/ c.k # "blank")
NRows(sh, o) == IF Has(sh, "tall") THEN sh.tall ELSE SumMax([i \in DOMAIN Counted(sh, o) |-> Counted(sh, o)[i].r + 1])
NCols(sh, o) == IF Has(sh, "tall") THEN 1 ELSE SumMax([i \in DOMAIN Counted(sh, o) |-> Counted(sh, o)[i].c + 1])
RowLen(sh, o, r) == IF o.rag THEN SumMax([i \in DOMAIN Counted(sh, o) |-> IF Counted(sh, o)[i].r = r THEN Counted(sh, o)[i].c + 1 ELSE 0])
                    ELSE NCols(sh, o)
At(sh, o, r, c) == LET cs == Counted(sh, o)
                       hit == {i \in DOMAIN cs : cs[i].r = r /\ cs[i].c = c}
                   IN IF hit = {} THEN [k |-> "empty", xf |-> DefaultXf] ELSE cs[CHOOSE i \in hit : TRUE]
Line(md, sh, o, r, c) == LET x == At(sh, o, r, c)
                             s == CellShown(md, x)
                         IN <<"cell", ColName(c), r + 1, s[1], s[2], IF o.fmt THEN x.xf ELSE -1>>
RowLines(md, sh, o, r) == [c \in 1..RowLen(sh, o, r) |-> Line(md, sh, o, r, c - 1)]
SheetLine(sh, o, i) == <<"sheet", i, sh.name, NRows(sh, o), NCols(sh, o)>>
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
ShowSheet(cmd, md, sh, o, i) ==
    <<SheetLine(sh, o, i)>>
    \o (IF Has(sh, "tall") THEN [j \in 1..Len(RowRuns(cmd, sh.tall)) |-> <<"rows">> \o RowRuns(cmd, sh.tall)[j]]
        ELSE Flat([j \in DOMAIN RowsOf(cmd, NRows(sh, o)) |-> RowLines(md, sh, o, RowsOf(cmd, NRows(sh, o))[j])]))
\* label ranges <<rlo, rhi, clo, chi>> list the values stored in their cells
RawShown(c) == CASE c.k \in {"num", "bool", "err", "text", "date"} -> c.raw [] OTHER -> <<>>
RangeLines(kind, sh, o, q) ==
    <<<<kind, CellA1(q[1], q[3]), CellA1(q[2] - 1, q[4] - 1)>>>>
    \o Flat([i \in 1..Max2(0, Min2(q[2], NRows(sh, o)) - q[1]) |->      \* only what the sheet has
          LET r == q[1] + i - 1 IN
          [j \in 1..Max2(0, Min2(q[4], RowLen(sh, o, r)) - q[3]) |->
             LET c == q[3] + j - 1 IN <<"label", CellA1(r, c), RawShown(At(sh, o, r, c))>>]])
LabelSheet(sh, o, i) ==
    IF sh.cl = <<>> /\ sh.rl = <<>> THEN <<>>
    ELSE <<SheetLine(sh, o, i)>> \o Flat([j \in DOMAIN sh.cl |-> RangeLines("Col", sh, o, sh.cl[j])])
                                 \o Flat([j \in DOMAIN sh.rl |-> RangeLines("Row", sh, o, sh.rl[j])])
\* counts per type 0..6 over all cells of all rows, and where their styles came from
AllCells(sh, o) == Flat([r \in 1..NRows(sh, o) |-> [c \in 1..RowLen(sh, o, r - 1) |-> At(sh, o, r - 1, c - 1)]])
TypeOf(x) == CASE x.k = "empty" -> 0 [] x.k = "text" -> 1 [] x.k = "num" -> 2 [] x.k = "date" -> 3 [] x.k = "bool" -> 4 [] x.k = "err" -> 5 [] OTHER -> 6
CountSheet(sh, o, i) ==
    LET a == AllCells(sh, o)
        n(t) == Cardinality({j \in DOMAIN a : TypeOf(a[j]) = t})
    IN <<SheetLine(sh, o, i), <<"xfstats", Len(a) - n(0), 0, 0, n(0)>>, <<"types">> \o [t \in 1..7 |-> n(t - 1)]>>

(* ---- one workbook ---- *)
BiffText == (20 :> "2.0") @@ (21 :> "2.1") @@ (30 :> "3") @@ (40 :> "4S") @@ (45 :> "4W") @@ (50 :> "5") @@ (70 :> "7") @@ (80 :> "8")
Header(b, o) == <<"header", BiffText[b.ver], b.mode, b.codepage, b.countries, b.user, Len(b.sheets),
                  IF o.fmt THEN 1 ELSE 0, IF o.od /\ b.ver >= 50 THEN 1 ELSE 0, IF o.rag THEN 1 ELSE 0>>
Chosen(b, o) == IF o.one = "" THEN [i \in DOMAIN b.sheets |-> i]
                ELSE IF o.one = "n" THEN <<o.onei + 1>>
                ELSE SelectSeq([i \in DOMAIN b.sheets |-> i], LAMBDA i : Same(b.sheets[i].name, o.onename))
FontAttrs(f) == <<f.name, f.height, f.weight, f.italic, f.struck_out, f.underline_type, f.family, f.character_set, f.escapement, f.colour_index>>
Fonts(b) == [i \in DOMAIN b.fonts |-> <<"font", i - 1, FontAttrs(b.fonts[i])>>]
NameAttrs(kind, n) ==
    IF kind = "name" THEN <<n.name, n.macro, n.scope>>
    ELSE <<n.name, n.hidden, n.func, n.vbasic, n.macro, n.complex, n.builtin, n.funcgroup, n.binary, n.name_index, n.scope, n.excel_sheet_index>>
Names(b, kind) == IF b.ver < 50 THEN <<<<"nonames">>>>
                  ELSE <<<<"namelist", Len(b.names)>>>> \o [i \in DOMAIN b.names |-> <<kind, i - 1, NameAttrs(kind, b.names[i])>>]
Body(cmd, b, o) ==
    CASE cmd = "hdr" -> <<Header(b, o)>>
      [] cmd \in {"show", "2rows", "3rows", "ov", "bench"} ->
           <<Header(b, o)>> \o Flat([j \in DOMAIN Chosen(b, o) |-> ShowSheet(cmd, b.mode, b.sheets[Chosen(b, o)[j]], o, Chosen(b, o)[j] - 1)])
      [] cmd = "xfc" -> <<Header(b, o)>> \o Flat([i \in DOMAIN b.sheets |-> CountSheet(b.sheets[i], o, i - 1)])
      [] cmd = "labels" -> LET l == Flat([i \in DOMAIN b.sheets |-> LabelSheet(b.sheets[i], o, i - 1)])
                           IN IF l = <<>> THEN <<>> ELSE <<Header(b, o)>> \o l
      [] cmd = "names" -> <<Header(b, o)>> \o Names(b, "name")
      [] cmd = "name_dump" -> <<Header(b, o)>> \o Names(b, "namedump")
      [] cmd = "fonts" -> <<Header(b, o)>> \o (IF o.fmt THEN Fonts(b) ELSE <<>>)
      [] OTHER -> <<<<"unknown_command">>>>

(* ---- the run: one step per file of the command line ---- *)
Known == {"hdr", "show", "2rows", "3rows", "ov", "bench", "xfc", "labels", "names", "name_dump", "fonts"}
R0(files) == [out |-> <<>>, code |-> IF files = <<>> THEN 2 ELSE 0, over |-> files = <<>>]      \* nothing to do: usage
Process(st, cmd, o, i, f) ==
    IF st.over \/ f.kind = "missing" THEN st
    ELSE LET head == <<<<"file", i>>>> IN
         IF f.kind = "bad" THEN [st EXCEPT !.out = @ \o head \o <<<<"failed">>>>]
         ELSE [st EXCEPT !.out = @ \o head \o Body(cmd, f, o), !.code = IF cmd \in Known THEN 0 ELSE 1, !.over = cmd \notin Known]
=============================================================================
