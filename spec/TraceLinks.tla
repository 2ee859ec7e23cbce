----------------------------- MODULE TraceLinks -----------------------------
EXTENDS Links
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Start0
Step == /\ pos < Len(S.ev)
        /\ S.ev[pos + 1].op = "link" => Assert(Legal(S.ev[pos + 1].b), <<"illegal link record", case>>)
        /\ st' = Apply(st, S.ev[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED case
Col(f) == [i \in DOMAIN st |-> f[i]]
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE IF Len(O.links) # Len(st) THEN <<"number_of_links">>
         ELSE Failing(<<
            <<"range", \A i \in DOMAIN st : Same(O.links[i].range, st[i].range)>>,
            <<"kind", \A i \in DOMAIN st : Same(O.links[i].type, st[i].f.type)>>,
            <<"address", \A i \in DOMAIN st : Same(O.links[i].path, st[i].f.path)>>,
            <<"description", \A i \in DOMAIN st : Same(O.links[i].desc, st[i].f.desc)>>,
            <<"target_frame", \A i \in DOMAIN st : Same(O.links[i].target, st[i].f.target)>>,
            <<"sub_address", \A i \in DOMAIN st : Same(O.links[i].mark, st[i].f.mark)>>,
            <<"screen_tip", \A i \in DOMAIN st : Same(O.links[i].tip, st[i].f.tip)>>,
            <<"map_size", Same(O.nmap, Cardinality(Covered(st)))>>,
            <<"lookup", \A i \in DOMAIN O.look : Same(O.look[i][3], LinkAt(st, O.look[i][1], O.look[i][2]))>>,
            <<"cells_undisturbed", Same(O.cells, S.cells)>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
