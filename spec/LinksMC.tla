------------------------------- MODULE LinksMC -------------------------------
(* Every sequence of up to MaxLen overlapping links, tool-tips and cells on a
   3x3 corner: the map always names the last covering link.                  *)
EXTENDS Links
CONSTANTS MaxLen, Export
VARIABLES links, hist
vars == <<links, hist>>
H(r1, r2, c1, c2, op) == <<r1, 0, r2, 0, c1, 0, c2, 0>> \o HLinkGuid \o <<2, 0, 0, 0>> \o <<op, 0, 0, 0>>
Alphabet == {[op |-> "link", b |-> H(q[1], q[2], q[3], q[4], 8) \o <<2, 0, 0, 0, q[5], 0, 0, 0>>] :
                 q \in {<<0, 0, 0, 0, 65>>, <<0, 1, 0, 1, 66>>, <<1, 2, 0, 0, 67>>, <<0, 2, 1, 1, 68>>, <<1, 1, 1, 2, 69>>}}
            \cup {[op |-> "tip", u |-> <<84>>], [op |-> "cell", r |-> 0, c |-> 0]}
Init == links = Start0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E e \in Alphabet : /\ (e.op = "tip" => Len(hist) > 0 /\ hist[Len(hist)].op = "link")
                               /\ links' = Apply(links, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
LegalAll == \A i \in DOMAIN hist : hist[i].op = "link" => Legal(hist[i].b)
LastCovers == \A r \in 0..2, c \in 0..2 :
    LET k == LinkAt(links, r, c) IN IF k = 0 THEN <<r, c>> \notin Covered(links)
                                    ELSE Covers(links[k], r, c) /\ \A j \in (k + 1)..Len(links) : ~Covers(links[j], r, c)
TipOwner == [][\A i \in DOMAIN links : ~Same(links'[i], links[i]) => i = Len(links)]_vars
Exported == (Export /\ Len(hist) = MaxLen) => PrintT("S|" \o ToJson(hist))
=============================================================================
