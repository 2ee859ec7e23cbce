---------------------------- MODULE TraceHandles ----------------------------
(* The recorded run: how the open ended, and the descriptors and maps of the
   file right after it (O.fds, O.maps), after a failed sheet load of a lazily
   opened workbook (O.late), and after the release (O.fds2, O.maps2).        *)
EXTENDS Handles
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, st
vars == <<case, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ st = Fresh
StepOne == Running(st) /\ st' = Step(st, S.route, S.box, S.lazy, S.fails) /\ UNCHANGED case
AtMost(x, n) == \E k \in 0..n : Same(x, k)
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE Failing(<<
           <<"ends_as_it_should", Same(O.ok, st.result # "failed")>>,
           <<"no_map_held", AtMost(O.maps, st.map)>>,
           <<"no_descriptor_held", AtMost(O.fds, st.fd + st.map)>>,  \* a map holds one
           <<"late_failure", st.result # "open" \/ Same(O.late, S.fails = "sheets")>>,
           <<"released", Same(O.maps2, 0) /\ Same(O.fds2, 0)>>,
           <<"file_untouched", Same(O.file, TRUE)>> >>)
Done == ~Running(st) /\ st.result # "judged" /\ st' = [st EXCEPT !.result = "judged"] /\ UNCHANGED case /\ Verdict(case, Judge)
Next == StepOne \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
