----------------------------- MODULE FormulaMC -----------------------------
(* Every legal record sequence up to MaxLen over a small alphabet.           *)
EXTENDS Formula
CONSTANTS MaxLen, Export
VARIABLES st, hist
vars == <<st, hist>>
Opt == [ver |-> 80, xfd |-> [i \in 1..21 |-> IF i = 18 THEN 1 ELSE 0]]
Sp(k, v) == <<k, 0, v, 0, 0, 0, 255, 255>>
Alphabet ==
    {[op |-> "f", r |-> r, c |-> c, xf |-> x, b |-> b] : r \in {0}, c \in {0, 1}, x \in {17}, b \in {<<0, 0, 0, 0, 0, 0, 240, 63>>}}
    \cup {[op |-> "f", r |-> 0, c |-> c, xf |-> 16, b |-> b] : c \in {0, 1}, b \in {Sp(0, 0), Sp(1, 1), Sp(2, 42), Sp(3, 0)}}
    \cup {[op |-> "aux", kind |-> k] : k \in {"shr", "arr", "tab"}}
    \cup {[op |-> "str", n |-> 2, parts |-> p] : p \in {<<<<0, 65, 66>>>>, <<<<0, 65>>, <<1, 172, 32>>>>, <<<<1, 61, 216>>, <<1, 0, 222>>>>, <<<<0>>, <<0, 67, 68>>>>}}
    \cup {[op |-> "str", n |-> 0, parts |-> <<<<0>>>>]}
    \cup {[op |-> "num", r |-> 0, c |-> 1, xf |-> 17, v |-> <<16384, 0, 0, 0>>], [op |-> "label", r |-> 0, c |-> 1, xf |-> 16, u |-> <<88>>]}
Init == st = Start0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E e \in Alphabet : LET n == Apply(st, e, Opt) IN
             /\ n.ok /\ st' = n /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
\* the text result goes to the formula's own cell and nowhere else
TextGoesHome == \A i \in DOMAIN hist : hist[i].op = "str" =>
    \E j \in 1..(i - 1) : /\ hist[j].op = "f" /\ IsSpecial(hist[j].b) /\ hist[j].b[1] = 0
                          /\ \A k \in (j + 1)..(i - 1) : hist[k].op = "aux"
OnlyOwnCell == [][\A k \in DOMAIN st'.cells : (k \notin DOMAIN st.cells \/ st'.cells[k] # st.cells[k]) =>
                     LET e == hist'[Len(hist')] IN IF e.op = "str" THEN k = st.pend ELSE k = <<e.r, e.c>>]_vars
Exported == (Export /\ st.pend = <<>> /\ Len(hist) >= MaxLen - 1 /\ hist[Len(hist)].op # "aux") => PrintT("S|" \o ToJson(hist))
=============================================================================
