----------------------------- MODULE TraceText -----------------------------
(* Runs the Text machine over the exact bytes given to the real reader, one
   stored piece per action, and judges the reported strings and runs.        *)
EXTENDS Text
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, st, fin
vars == <<case, st, fin>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ st = Start(Cases[case].s.n, 8) /\ fin = FALSE
Step == ~fin /\ st.ph \notin {"done", "bad"} /\ st' = StepText(st, S.parts) /\ UNCHANGED <<case, fin>>
\* the writer's own idea of the table, when it recorded one
Writer == ~Has(S, "want") \/ Same([k \in DOMAIN st.out |-> <<st.out[k].u, st.out[k].rs>>], S.want)
Expected(k) == st.out[S.cells[k] + 1]
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE Failing(<<
            <<"strings", Same(O.texts, [k \in DOMAIN S.cells |-> Expected(k).u])>>,
            <<"text_type", \A k \in DOMAIN S.cells : O.types[k] = 1>>,
            <<"runs", Same(O.runs, [k \in DOMAIN S.cells |-> IF S.fmt THEN Expected(k).rs ELSE <<>>])>> >>)
Done == /\ ~fin /\ st.ph \in {"done", "bad"} /\ fin' = TRUE /\ UNCHANGED <<case, st>>
        /\ Assert(st.ph = "done" /\ Writer, <<"writer and specification disagree", case>>)
        /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
