--------------------------- MODULE TraceContainer ---------------------------
(* One recorded reading per case: the specification reads the same container
   phase by phase, then judges every answer the implementation gave.         *)
EXTENDS Container
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, st
vars == <<case, st>>
S == Cases[case].s
O == Cases[case].o
C == S.c
Init == case \in 1..Len(Cases) /\ st = Start0
Read == st.ph \notin {"done", "judged"} /\ st' = Phase(C, st) /\ UNCHANGED case
A(i) == Answer(C, st, S.q[i].path, S.q[i].ignore)
Judge == IF Cases[case].hang THEN <<"terminates">>
         ELSE LET ans == TLCEval([i \in DOMAIN S.q |-> A(i)])
                  bad == {i \in DOMAIN S.q : ~Accept(C, st, ans[i], O.q[i])} IN
              (IF S.must_be_data /\ (\E i \in DOMAIN S.q : ans[i].k \notin {"data", "absent"})
               THEN <<"scenario_not_well_formed">> ELSE <<>>)
              \o (IF bad = {} THEN <<>>
                  ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN <<"expected_" \o ans[i].k \o "_got_" \o O.q[i].res>>)
Done == /\ st.ph = "done" /\ Verdict(case, Judge) /\ st' = [ph |-> "judged"] /\ UNCHANGED case
Next == Read \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
