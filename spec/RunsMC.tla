------------------------------- MODULE RunsMC -------------------------------
(* Every sequence of up to MaxLen cell records over two cells.              *)
EXTENDS Runs
CONSTANTS MaxLen, Export
VARIABLES st, hist
vars == <<st, hist>>
Opt == [fmt |-> TRUE, runs |-> << <<>>, <<<<1, 2>>>>, <<<<0, 3>>, <<2, 1>>>> >>]
Pos == {<<0, 0>>, <<0, 1>>}
Alphabet == {[op |-> "sst", r |-> p[1], c |-> p[2], xf |-> 15, i |-> i] : p \in Pos, i \in 0..2}
            \cup {[op |-> "rstring", r |-> p[1], c |-> p[2], xf |-> 15, t |-> "abc", runs |-> rs] : p \in Pos, rs \in {<<>>, <<<<1, 1>>>>, <<<<1, 2>>>>}}
            \cup {[op |-> "label", r |-> p[1], c |-> p[2], xf |-> 15, t |-> "abc"] : p \in Pos}
            \cup {[op |-> "bool", r |-> p[1], c |-> p[2], xf |-> 15, v |-> 1] : p \in Pos}
            \cup {[op |-> "mulblank", r |-> 0, c |-> 0, xfs |-> <<16, 17>>]}
Init == st = Start0 /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E e \in Alphabet : st' = Apply(st, e, Opt) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Covers(e, p) == e.r = p[1] /\ p[2] \in (e.c)..Last1(e)
Own(e) == CASE e.op = "sst" -> Opt.runs[e.i + 1] [] e.op = "rstring" -> e.runs [] OTHER -> <<>>
LastOne(p) == {j \in DOMAIN hist : Covers(hist[j], p) /\ \A k \in (j + 1)..Len(hist) : ~Covers(hist[k], p)}
\* the runs of a cell are those of the last record there, and no entry is empty
OfTheLast == \A p \in Pos : LET j == LastOne(p) IN
    IF j = {} THEN p \notin DOMAIN st
    ELSE LET rs == Own(hist[CHOOSE x \in j : TRUE]) IN IF rs = <<>> THEN p \notin DOMAIN st ELSE p \in DOMAIN st /\ st[p] = rs
\* a record changes no other cell's runs
Local == [][\A p \in Pos : Covers(hist'[Len(hist')], p) \/ ((p \in DOMAIN st <=> p \in DOMAIN st') /\ (p \in DOMAIN st => st'[p] = st[p]))]_vars
Exported == (Export /\ Len(hist) = MaxLen) => PrintT("S|" \o ToJson(hist))
=============================================================================
