--------------------------- MODULE TraceCatalogue ---------------------------
(* S.es: header entries; S.ask: lookups; the recorded run gives what every
   way of reaching a sheet found: <<number, name, visibility, substream>>.   *)
EXTENDS Catalogue
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start
Step == pos < Len(S.es) /\ st' = Add(st, S.es[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED case
View(k) == <<k, st.user[k + 1].name, st.user[k + 1].vis, st.user[k + 1].sub>>
All == [k \in 1..Len(st.user) |-> View(k - 1)]
Want(q) == LET k == IF q.t = "i" THEN ByIndex(st, q.i) ELSE ByName(st, q.s)
           IN IF k = -1 THEN (IF q.t = "i" THEN "fails" ELSE "refused") ELSE View(k)
Got(q, a) == LET w == Want(q) IN Same(a, w) \/ (Same(w, "fails") /\ Same(a, "refused"))
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE Failing(<<
           <<"number_of_sheets", Same(O.nsheets, Len(st.user))>>,
           <<"names", Same(O.names, [k \in 1..Len(st.user) |-> st.user[k].name])>>,
           <<"lookup", \A i \in DOMAIN S.ask : Got(S.ask[i], O.ask[i])>>,
           <<"iteration", Same(O.iter, All)>>,
           <<"sheets_list", Same(O.sheets, All)>> >>)
Done == pos = Len(S.es) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
