------------------------------- MODULE GridMC -------------------------------
(* Exhaustive exploration of Grid over a small alphabet: every sequence of up
   to MaxLen records.  Checks the extent/last-write laws on the model and
   exports every complete behaviour for replay into the real reader.        *)
EXTENDS Grid
CONSTANTS MaxLen, Rows, Cols, WithMerge, WithStyles, Export
VARIABLES st, hist
vars == <<st, hist>>
Opt == [fmt |-> TRUE, ragged |-> FALSE, xfd |-> [i \in 1..21 |-> 0], sst |-> <<"s">>]
Alphabet ==
    {[op |-> "int", r |-> r, c |-> c, xf |-> 15 + ((r + c) % 4), v |-> 0] : r \in Rows, c \in Cols}
    \cup {[op |-> "blank", r |-> r, c |-> c, xf |-> 17] : r \in {CHOOSE x \in Rows : \A z \in Rows : z <= x}, c \in Cols}
    \cup (IF WithMerge THEN {[op |-> "merge", rs |-> <<<<0, 2, 1, 3>>>>], [op |-> "merge", rs |-> <<<<2, 4, 0, 1>>>>]} ELSE {})
    \cup (IF WithStyles
          THEN {[op |-> "row", r |-> r, xf |-> x] : r \in {0, 1}, x \in {-1, 16}}
               \cup {[op |-> "col", c1 |-> c, c2 |-> c + 1, xf |-> 19 + c] : c \in {0, 1}}
          ELSE {})
Init == st = Empty /\ hist = <<>>
\* values are numbered by position so that every write is distinguishable
Stamp(e, n) == IF e.op = "int" THEN [e EXCEPT !.v = n] ELSE e
Next == /\ Len(hist) < MaxLen
        /\ \E e \in Alphabet :
             LET x == Stamp(e, Len(hist) + 1) IN
             /\ st' = Apply(st, x, Opt)
             /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_vars
LastWriteWins == \A k \in Keys(st) :
    LET js == {j \in DOMAIN hist : hist[j].op \in {"int", "blank"} /\ <<hist[j].r, hist[j].c>> = k}
        j == MaxOf(js, 0)
    IN js # {} /\ (hist[j].op = "int" => st.cells[k][2] = Tok(OfInt(j)))
ExtentTight == /\ \A k \in Keys(st) : k[1] < NRows(st) /\ k[2] < NCols(st)
               /\ NRows(st) > 0 => \/ \E k \in Keys(st) : k[1] = NRows(st) - 1
                                   \/ \E i \in DOMAIN st.merged : st.merged[i][2] = NRows(st)
RaggedAgrees == \A e \in RowLens(st, TRUE) : SumSeq([i \in DOMAIN e |-> e[i][2]]) = NRows(st)
\* style resolution depends on the last row/column record only
RowPrecedence == \A r \in DOMAIN st.rowxf : \A c \in 0..3 :
    (<<r, c>> \notin Keys(st) /\ st.rowxf[r] # -1) => XfAt(st, r, c) = st.rowxf[r]
EveryKeyFromHist == Cardinality(Keys(st)) <= Len(hist)
Growth == [][NRows(st') >= NRows(st) /\ NCols(st') >= NCols(st) /\ Keys(st) \subseteq Keys(st')]_vars
Exported == (Export /\ Len(hist) = MaxLen) => PrintT("S|" \o ToJson(hist))
=============================================================================
