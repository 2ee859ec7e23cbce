------------------------------ MODULE ReportMC ------------------------------
(* Command lines of up to three files, good, bad or missing, with every
   command, sheet shape and way of reading; exported for replay.             *)
EXTENDS Report
CONSTANTS MaxRows, Shapes
VARIABLES files, cmd, o, k, st
rvars == <<files, cmd, o, k, st>>
Cell(r, c) == [r |-> r, c |-> c, k |-> IF (r + c) % 4 = 0 THEN "blank" ELSE IF (r + c) % 4 = 1 THEN "bool" ELSE "err", v |-> r % 2, raw |-> r % 2, xf |-> 15 + 2 * (c % 2)]
Shape(j) == CASE j = 0 -> <<>> [] j = 1 -> <<Cell(0, 0)>> [] j = 2 -> <<Cell(0, 1), Cell(2, 0)>> [] j = 3 -> <<Cell(1, 0), Cell(3, 2), Cell(3, 0)>>
              [] j = 4 -> <<Cell(0, 0), Cell(1, 0), Cell(2, 0), Cell(3, 0)>> [] j = 5 -> <<Cell(1, 1), Cell(1, 2)>>
Sheet(j) == [name |-> <<83, 48 + j>>, cells |-> Shape(j), cl |-> <<>>, rl |-> <<>>]
Book(j) == [kind |-> "book", ver |-> 80, mode |-> 0, codepage |-> 1200, countries |-> <<0, 0>>, user |-> <<>>, fonts |-> <<>>, names |-> <<>>,
            sheets |-> IF j % 2 = 0 THEN <<Sheet(j)>> ELSE <<Sheet(j), Sheet((j + 2) % 6)>>]
Bad == [kind |-> "bad"]
Missing == [kind |-> "missing"]
F == {Bad, Missing} \cup {Book(j) : j \in Shapes}
Init == /\ \E n \in 0..2 : files \in [1..n -> F]
        /\ cmd \in {"show", "2rows", "3rows", "ov", "bench", "hdr", "xfc", "labels", "oops"}
        /\ o \in [fmt : {(cmd = "xfc")} \cup {TRUE}, rag : BOOLEAN, od : BOOLEAN, one : {""}]
        /\ k = 0 /\ st = R0(files)
Next == k < Len(files) /\ st' = Process(st, cmd, o, k + 1, files[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<files, cmd, o>>
Spec == Init /\ [][Next]_rvars

Set(s) == {s[i] : i \in DOMAIN s}
(* the loop prints what the command promises, on any sheet within its limit  *)
Loops == \A n \in 0..MaxRows :
           /\ LoopRows(MaxRows, n) = RowsOf("show", n) /\ LoopRows(2, n) = RowsOf("2rows", n)
           /\ LoopRows(3, n) = RowsOf("3rows", n) /\ LoopRows(0, n) = RowsOf("ov", n)
           /\ Set(RowsOf("2rows", n)) = {i \in 0..n-1 : i \in {0, n - 1}}
           /\ \A c \in {"show", "2rows", "3rows", "ov"} : Set(RowsOf(c, n)) = UNION {q[1]..q[2] : q \in Set(RowRuns(c, n))}
(* a bad or missing file never hides a later one                             *)
Heads == {st.out[i][2] : i \in {j \in DOMAIN st.out : st.out[j][1] = "file"}}
NoneHidden == st.over \/ Heads = {i \in 1..k : files[i].kind # "missing"}
(* every cell with content is listed exactly once by "show"                  *)
Complete == (cmd = "show" /\ k = Len(files)) =>
              LET cells == SelectSeq(st.out, LAMBDA l : l[1] = "cell" /\ l[4] # 0)
                  stored == Flat([i \in DOMAIN files |-> IF files[i].kind = "book" THEN Flat([j \in DOMAIN files[i].sheets |-> Counted(files[i].sheets[j], o)]) ELSE <<>>])
              IN Len(cells) = Len(stored)
Export == IF k = Len(files) THEN PrintT("S|" \o ToJson([files |-> files, cmd |-> cmd, o |-> o])) ELSE TRUE
=============================================================================
