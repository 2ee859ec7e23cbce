------------------------------ MODULE StylesMC ------------------------------
(* Every style record one bit away from all zeros or from all ones, in every
   version: fields never overlap, each bit belongs to at most one attribute,
   and nothing but that attribute changes with it.                           *)
EXTENDS Styles
Vers == {80, 70, 50, 40, 30, 21, 20}
VARIABLES ver, bit, base
vars == <<ver, bit, base>>
NBits(v) == 8 * XfLen(v)
Bytes(v, b, bs) ==       \* bit -1: the base itself
    [i \in 1..XfLen(v) |-> IF b < 0 \/ b \div 8 # i - 1 THEN bs ELSE IF bs = 0 THEN Pow2(b % 8) ELSE 255 - Pow2(b % 8)]
Init == ver \in Vers /\ base \in {0, 255} /\ bit = -1
Next == bit < NBits(ver) - 1 /\ bit' = bit + 1 /\ UNCHANGED <<ver, base>>
Spec == Init /\ [][Next]_vars
InRec(f, b) == f[2] <= b /\ b < f[2] + f[3]
Disjoint == \A b \in {bit} : b >= 0 => Cardinality({i \in DOMAIN Fields(ver) : InRec(Fields(ver)[i], b)}) <= 1
Inside == \A i \in DOMAIN Fields(ver) : Fields(ver)[i][2] + Fields(ver)[i][3] <= NBits(ver)
Changed == LET x == Xf(ver, Bytes(ver, -1, base)) y == Xf(ver, Bytes(ver, bit, base)) IN {a \in Attrs : x[a] # y[a]}
OneBitOneAttribute ==
    bit >= 0 => LET n == Cardinality(Changed)
                    used == \E i \in DOMAIN Fields(ver) : InRec(Fields(ver)[i], bit)
                    edge == \E i \in DOMAIN Fields(ver) : InRec(Fields(ver)[i], bit) /\ Fields(ver)[i][1] \in {"b_left", "b_right", "b_top", "b_bottom"}
                IN n = (IF ~used THEN 0 ELSE IF edge THEN 2 ELSE 1)
Exported == PrintT("S|" \o ToJson([ver |-> ver, b |-> Bytes(ver, bit, base)]))
=============================================================================
