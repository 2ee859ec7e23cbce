---------------------------- MODULE CellNamesMC ----------------------------
(* Listing the columns one by one: closed form, odometer and inverse agree,
   so names are distinct and none is skipped.  Also that distinct cells near
   the corners of the address space have distinct names in every style.     *)
EXTENDS CellNames
CONSTANT MaxCol
VARIABLES n, name
Init == n = 0 /\ name = NextName(<<>>)
Next == n < MaxCol /\ n' = n + 1 /\ name' = NextName(name)
Spec == Init /\ [][Next]_<<n, name>>
Agree == name = ColName(n) /\ ColValue(name) = n
Ordered == \A m \in {n + 1, n + 25, n + 26, n + 676} :
              LET b == ColName(m) IN Len(name) < Len(b) \/ (Len(name) = Len(b) /\ \E i \in DOMAIN b : name[i] < b[i] /\ \A j \in 1..i-1 : name[j] = b[j])
Pos == {0, 1, 9, 10, 25, 26, 27, 99, 255, 256, 701, 702}
DistinctCells == n = 0 =>
   \A f \in 1..3 : Cardinality({CASE f = 1 -> CellA1(r, c) [] f = 2 -> CellAbs(r, c) [] OTHER -> CellR1C1(r, c) : r \in Pos, c \in Pos}) = Cardinality(Pos) * Cardinality(Pos)
Offs == {-2, -1, 0, 1, 2, 11}
DistinctRel == n = 0 =>
   Cardinality({CellRel(r, c, rr, cc, -1, -1, TRUE) : r \in Offs \ {-2, -1}, c \in Offs \ {-2, -1}, rr \in BOOLEAN, cc \in BOOLEAN}) = 64
=============================================================================
