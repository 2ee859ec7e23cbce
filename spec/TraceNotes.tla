----------------------------- MODULE TraceNotes -----------------------------
EXTENDS Notes
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start0
Step == /\ pos < Len(S.ev) /\ st' = Apply(st, S.ev[pos + 1], S.opt)
        /\ pos' = pos + 1 /\ UNCHANGED case
Where(l) == [i \in DOMAIN l |-> <<l[i][1], l[i][2]>>]
Part(l, k) == [i \in DOMAIN l |-> l[i][k]]
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE LET r == Report(st) IN
              IF ~Same(Where(O.notes), Where(r)) THEN <<"which_cells_have_notes">>
              ELSE Failing(<<
                 <<"author", Same(Part(O.notes, 3), Part(r, 3))>>,
                 <<"visibility", Same(Part(O.notes, 4), Part(r, 4))>>,
                 <<"hidden_flags", Same(Part(O.notes, 5), Part(r, 5)) /\ Same(Part(O.notes, 6), Part(r, 6))>>,
                 <<"text", Same(Part(O.notes, 7), Part(r, 7))>>,
                 <<"runs", Same(Part(O.notes, 8), Part(r, 8))>>,
                 <<"own_position", O.ownpos>>,
                 <<"cells_undisturbed", Same(O.cells, S.cells)>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
