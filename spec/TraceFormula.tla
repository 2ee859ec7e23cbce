---------------------------- MODULE TraceFormula ----------------------------
EXTENDS Formula
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start0
Step == /\ pos < Len(S.ev) /\ st' = Apply(st, S.ev[pos + 1], S.opt)
        /\ pos' = pos + 1 /\ UNCHANGED case
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE Failing(<< <<"cells", Same(O.cells, CellList(st))>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>>
        /\ Assert(st.ok /\ st.pend = <<>>, <<"illegal record sequence", case>>)
        /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
