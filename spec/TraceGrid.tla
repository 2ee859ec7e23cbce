----------------------------- MODULE TraceGrid -----------------------------
(* Replays the record sequence of a recorded run through Grid, one action per
   record, and judges what the real reader reported at the end.             *)
EXTENDS Grid
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Empty
Step == /\ pos < Len(S.ev)
        /\ st' = Apply(st, S.ev[pos + 1], S.opt)
        /\ pos' = pos + 1 /\ UNCHANGED case
Judge ==
    IF Cases[case].hang THEN <<"hang">>
    ELSE IF Has(O, "err") THEN <<"opens_without_error">>
    ELSE Failing(<<
        <<"nrows", Same(O.nrows, NRows(st))>>,
        <<"ncols", Same(O.ncols, NCols(st))>>,
        <<"cells", Same(O.cells, CellList(st))>>,
        <<"row_lengths", \E e \in RowLens(st, S.opt.ragged) : Same(O.rl, e)>>,
        <<"style_index", ~Has(S, "probe") \/
            (IF S.opt.fmt
             THEN Same(O.xf, [i \in DOMAIN S.probe |->
                    \* outside the stored extent the position does not exist
                    IF Same(O.xf[i], "outside") THEN "outside" ELSE XfAt(st, S.probe[i][1], S.probe[i][2])])
                  /\ \A i \in DOMAIN S.probe : Same(O.xf[i], "outside") =>
                        \/ S.probe[i][1] >= NRows(st) \/ S.probe[i][2] >= NCols(st)
                        \/ (S.opt.ragged /\ <<S.probe[i][1], S.probe[i][2]>> \notin Keys(st))
             ELSE \A i \in DOMAIN S.probe : Same(O.xf[i], "refused"))>>,
        \* the style carried by a cell object is the same, or none without formatting
        <<"cell_object_style", ~Has(S, "probe") \/ \A i \in DOMAIN S.probe :
               \/ Same(O.cxf[i], "outside")
               \/ (IF S.opt.fmt THEN Same(O.cxf[i], XfAt(st, S.probe[i][1], S.probe[i][2]))
                                 ELSE Same(O.cxf[i], "None"))>>,
        <<"empty_cells", Same(O.holes, 0)>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>>
        /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
