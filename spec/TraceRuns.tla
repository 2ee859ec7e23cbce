------------------------------ MODULE TraceRuns ------------------------------
(* S.ev: the cell records of a sheet; O.runs: the reported map, O.loose:
   entries that do not sit on a text cell.                                  *)
EXTENDS Runs
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start0
Step == /\ pos < Len(S.ev) /\ st' = Apply(st, S.ev[pos + 1], S.opt)
        /\ pos' = pos + 1 /\ UNCHANGED case
Part(l) == [i \in DOMAIN l |-> <<l[i][1], l[i][2]>>]
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE Failing(<<
            <<"which_cells_have_runs", Same(Part(O.runs), Part(Report(st)))>>,
            <<"runs", ~Same(Part(O.runs), Part(Report(st))) \/ Same(O.runs, Report(st))>>,
            <<"runs_without_text", O.loose = 0>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
