---------------------------- MODULE TraceSettings ---------------------------
(* S.books: workbooks open at the same time, each with its setting records in
   file order and the date cells of its sheets.                              *)
EXTENDS Settings
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, k, pos, st, bad
tvars == <<case, k, pos, st, bad>>
S == Cases[case].s
O == Cases[case].o
B == S.books[k]
Init == /\ case \in 1..Len(Cases) /\ k = 1 /\ pos = 0 /\ st = Settings0 /\ bad = <<>>
Rest == UNCHANGED <<case>>
Live == k <= Len(S.books) /\ ~Cases[case].hang /\ ~Has(O, "err")
Step == Live /\ pos < Len(B.ev) /\ st' = ReadSetting(B.ver, st, B.ev[pos + 1]) /\ pos' = pos + 1 /\ Rest /\ UNCHANGED <<k, bad>>
Observe == /\ Live /\ pos = Len(B.ev)
           /\ LET o == O.books[k] IN bad' = bad \o Failing(<<
                <<"calendar_mode", Same(o.mode, st.cal)>>,
                <<"countries", Same(o.countries, st.countries)>>,
                <<"user_name", Same(o.user, TrimRight(st.user))>>,
                <<"code_page", st.page = 0 \/ Same(o.page, st.page)>>,
                <<"date_cells", \A i \in DOMAIN B.dates : Same(o.types[i], 3)>>,
                <<"dates_as_tuples", \A i \in DOMAIN B.dates : Same(o.tuples[i], DateSeen(st, B.dates[i].day, B.dates[i].q))>>,
                <<"dates_as_datetimes", \A i \in DOMAIN B.dates : Same(o.datetimes[i], DateSeen(st, B.dates[i].day, B.dates[i].q))>> >>)
           /\ k' = k + 1 /\ pos' = 0 /\ st' = Settings0 /\ Rest
Done == /\ k # 99 /\ ~(Live) /\ k' = 99 /\ UNCHANGED <<pos, st, bad>> /\ Rest
        /\ Verdict(case, IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">> ELSE bad)
Next == Step \/ Observe \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
