------------------------------- MODULE DumpMC -------------------------------
EXTENDS Dump
CONSTANT N
VARIABLES items, st, pos
vars == <<items, st, pos>>
Body == {<<"rec", c, n, n>> : c \in {1, 2}, n \in 0..2} \cup {<<"rec", 0, 2, 2>>, <<"zero", 4>>, <<"zero", 8>>}
Ends == {<<>>, <<<<"misc", 1>>>>, <<<<"misc", 3>>>>, <<<<"zero", 6>>>>, <<<<"zero", 4>>>>, <<<<"rec", 1, 9, 0>>>>, <<<<"rec", 2, 9, 5>>>>}
(* what follows a run of zeros at the end belongs to it                      *)
Legal(s) == /\ ~(Len(s) > 1 /\ s[Len(s)][1] = "misc" /\ s[Len(s) - 1][1] = "zero")
Init == /\ \E n \in 0..N : \E b \in [1..n -> Body] : \E e \in Ends : items = b \o e
        /\ Legal(items) /\ st = D0 /\ pos = 0
Next == pos < Len(items) /\ st' = Feed(st, items[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED items
Spec == Init /\ [][Next]_vars
Render(it) == CASE it[1] = "rec" -> <<it[2], it[3], 0, 0>> \o Rep(7, it[4])
                [] it[1] = "zero" -> Rep(0, it[2])
                [] it[1] = "misc" -> Rep(5, it[2])
End == pos = Len(items)
SameFromBytes == End => Bytes(FlattenSeq([i \in DOMAIN items |-> Render(items[i])]), 0, <<>>) = st.ev
Covers == \A i \in 1..Len(st.ev) : LET e == st.ev[i]
                                      n == IF e[2] = "rec" THEN 4 + e[4] ELSE e[3]
                                  IN i < Len(st.ev) => st.ev[i + 1][1] = e[1] + n
EveryRecord == End => Len(Recs(st.ev)) = Cardinality({i \in DOMAIN items : items[i][1] = "rec"})
Export == IF End /\ Len(items) > 0 /\ items[1][1] = "rec" THEN PrintT("S|" \o ToJson([items |-> items])) ELSE TRUE
=============================================================================
