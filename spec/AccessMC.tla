------------------------------ MODULE AccessMC ------------------------------
(* Laws of slices over every length, start and end in a small range; each is
   exported for replay.                                                      *)
EXTENDS Access
CONSTANT N, K
VARIABLES n, s, end
Bounds == (0 - K)..K
Init == n \in 0..N /\ s \in Bounds /\ end \in Bounds \cup {99}
Next == UNCHANGED <<n, s, end>>
Spec == Init /\ [][Next]_<<n, s, end>>
(* 99: no end given *)
e == IF end = 99 THEN None ELSE end
Ix == SliceIdx(n, s, e)
All == [i \in 1..n |-> i - 1]
Range1(q) == {q[i] : i \in DOMAIN q}
Inside == \A k \in DOMAIN Ix : Ix[k] \in 0..n-1 /\ (k > 1 => Ix[k] = Ix[k - 1] + 1)
(* the two halves cut at any point make the whole                            *)
Split == ~Same(e, None) => SliceIdx(n, 0, e) \o SliceIdx(n, e, None) = All
(* a slice is the common part of "up to e" and "from s"                      *)
Both == Range1(Ix) = Range1(SliceIdx(n, s, None)) \cap Range1(SliceIdx(n, 0, e))
(* negative bounds count from the end                                        *)
Neg == s < 0 /\ s + n >= 0 => SliceIdx(n, s, e) = SliceIdx(n, s + n, e)
Export == PrintT("S|" \o ToJson([n |-> n, s |-> s, e |-> e]))
=============================================================================
