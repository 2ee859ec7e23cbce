---------------------------- MODULE LifecycleMC ----------------------------
(* Every history of up to Depth requests on a workbook of two sheets, the
   second of which may be unreadable; each is exported for replay.           *)
EXTENDS Lifecycle
CONSTANTS Depth
VARIABLES st, hist, opt
vars == <<st, hist, opt>>
Init == /\ opt \in {[n |-> 2, names |-> <<"a", "b">>, lazy |-> l, bad |-> b] : l \in BOOLEAN, b \in {<<>>, <<2>>}}
        /\ (~opt.lazy => opt.bad = <<>>)
        /\ st = Open(opt) /\ hist = <<>>
Reqs == {[f |-> "get", t |-> "i", i |-> 0], [f |-> "get", t |-> "s", s |-> "b"], [f |-> "sheets"], [f |-> "iter"],
         [f |-> "unload", t |-> "i", i |-> 0], [f |-> "unload", t |-> "s", s |-> "b"], [f |-> "release"], [f |-> "leave"],
         [f |-> "loaded", t |-> "i", i |-> 1]}
        \cup {[f |-> "next", k |-> k] : k \in DOMAIN st.its}
        \cup {[f |-> "look", k |-> k] : k \in DOMAIN st.held}
Do(q) == LET r == Step(st, opt, q) IN st' = r[1] /\ hist' = Append(hist, q) /\ UNCHANGED opt
Next == Len(hist) < Depth /\ \E q \in Reqs : Do(q)
Spec == Init /\ [][Next]_vars
TypeOK == st.loaded \subseteq 1..opt.n /\ \A k \in DOMAIN st.its : st.its[k] \in -1..opt.n
NeverBad == \A i \in st.loaded : ~Bad(opt, i)
(* released is for ever, and nothing is loaded any more afterwards          *)
Final == [][st.released => st'.released /\ st'.loaded \subseteq st.loaded]_vars
Export == IF Len(hist) = Depth THEN PrintT("S|" \o ToJson([opt |-> opt, q |-> hist])) ELSE TRUE
=============================================================================
