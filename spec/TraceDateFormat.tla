-------------------------- MODULE TraceDateFormat --------------------------
EXTENDS DateFormat
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start0
Step == /\ pos < Len(S.ev)
        /\ (S.ev[pos + 1].op = "format" => Assert(Legal(Lex(S.ev[pos + 1].u)), <<"illegal format", case, pos>>))
        /\ st' = Apply(st, S.ev[pos + 1], S.ver) /\ pos' = pos + 1 /\ UNCHANGED case
Wrong == {i \in DOMAIN S.cells : \A t \in TypesOfCell(st, S.cells[i], S.ver) : ~Same(O.types[i], t)}
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE IF Len(O.types) # Len(S.cells) THEN <<"cells_missing">>
         ELSE IF Wrong = {} THEN <<>>
         ELSE LET i == Min(Wrong) IN
              <<IF \A t \in TypesOfCell(st, S.cells[i], S.ver) : t = 3 THEN "date_reported_as_number" ELSE "number_reported_as_date">>
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
