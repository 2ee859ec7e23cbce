-------------------------------- MODULE Names --------------------------------
(* The catalogue of defined names: W.defs in file order, each [fl: option bits,
   u: stored name, low: the name shown, in lower case, sheet, extn, toks].    *)
EXTENDS NameFormula
Field(fl, name) == CASE name = "hidden" -> Bit(fl, 0) [] name = "func" -> Bit(fl, 1) [] name = "vbasic" -> Bit(fl, 2)
                     [] name = "macro" -> Bit(fl, 3) [] name = "complex" -> Bit(fl, 4) [] name = "builtin" -> Bit(fl, 5)
                     [] name = "funcgroup" -> Bits(fl, 6, 6) [] OTHER -> Bit(fl, 12)
FieldNames == {"hidden", "func", "vbasic", "macro", "complex", "builtin", "funcgroup", "binary"}
BuiltIn(c) == CASE c = 0 -> "Consolidate_Area" [] c = 1 -> "Auto_Open" [] c = 2 -> "Auto_Close" [] c = 3 -> "Extract"
                [] c = 4 -> "Database" [] c = 5 -> "Criteria" [] c = 6 -> "Print_Area" [] c = 7 -> "Print_Titles"
                [] c = 8 -> "Recorder" [] c = 9 -> "Data_Form" [] c = 10 -> "Auto_Activate" [] c = 11 -> "Auto_Deactivate"
                [] c = 12 -> "Sheet_Title" [] c = 13 -> "_FilterDatabase" [] OTHER -> "??Unknown??"
(* the name a user sees: a string for a built-in name, else units           *)
Shows(d) == IF Field(d.fl, "builtin") = 1 THEN BuiltIn(IF Len(d.u) = 1 THEN d.u[1] ELSE 99) ELSE d.u
(* physical sheets to the sheets of the user: worksheets only               *)
MapOf(types) == [i \in DOMAIN types |-> IF types[i] = 0 THEN Cardinality({j \in 1..i : types[j] = 0}) - 1 ELSE 0 - 1]
Scope(W, d) ==
    IF W.ver >= 80
    THEN IF d.sheet = 0 THEN 0 - 1
         ELSE IF d.sheet \in DOMAIN W.map THEN (IF W.map[d.sheet] >= 0 THEN W.map[d.sheet] ELSE 0 - 2) ELSE 0 - 3
    ELSE IF d.extn = 0 THEN 0 - 1
         ELSE LET s == {i \in DOMAIN W.all : W.all[i] = W.ext[d.extn].u}
              IN IF s = {} THEN 0 - 2 ELSE LET i == CHOOSE i \in s : TRUE IN IF W.map[i] >= 0 THEN W.map[i] ELSE 0 - 2
(* ---- lookups ---- *)
Keys(W) == {W.defs[i].low : i \in DOMAIN W.defs}
Having(W, key) == {i \in DOMAIN W.defs : W.defs[i].low = key}
InOrder(W, key) == SetToSortSeq(Having(W, key), LAMBDA a, b : LET x == Scope(W, W.defs[a])
                                                                  y == Scope(W, W.defs[b])
                                                              IN x < y \/ (x = y /\ a < b))
At(W, key, scope) == {i \in Having(W, key) : Scope(W, W.defs[i]) = scope}
(* ---- the cell and the area a result denotes ---- *)
(* v: the value shown; W.dim[i]: <<rows, columns>> of worksheet i           *)
OneSheet(ob) == /\ ~Same(ob, "none") /\ Same(ob.k, REF) /\ Same(ob.v[1], "refs") /\ Len(ob.v[4]) = 1
                /\ LET r == ob.v[4][1] IN r[1] >= 0 /\ r[2] = r[1] + 1
TheCell(W, ob) == LET r == ob.v[4][1] IN
    IF ~OneSheet(ob) THEN "raise"
    ELSE IF r[4] # r[3] + 1 \/ r[6] # r[5] + 1 THEN "raise"
    ELSE LET d == W.dim[r[1] + 1] IN
         IF r[3] >= d[1] \/ r[5] >= d[2] THEN "raise" ELSE <<r[1], r[3], r[5]>>
Clip(x, n) == Min2(x, n)
TheArea(W, ob, clipped) == LET r == ob.v[4][1] IN
    IF ~OneSheet(ob) THEN "raise"
    ELSE IF ~clipped THEN <<r[1], r[3], r[4], r[5], r[6]>>
    ELSE LET d == W.dim[r[1] + 1] IN
         <<r[1], Clip(r[3], d[1]), Max2(Clip(r[3], d[1]), Clip(r[4], d[1])), Clip(r[5], d[2]), Max2(Clip(r[5], d[2]), Clip(r[6], d[2]))>>
=============================================================================
