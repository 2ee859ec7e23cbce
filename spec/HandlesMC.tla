----------------------------- MODULE HandlesMC -----------------------------
EXTENDS Handles
VARIABLES route, box, lazy, fails, st
vars == <<route, box, lazy, fails, st>>
Init == /\ route \in Routes /\ box \in Boxes /\ lazy \in BOOLEAN
        /\ fails \in {"no"} \cup {f \in ToSet(StepsOf) : Applies(route, box, lazy, f)}
        /\ st = Fresh
Next == /\ UNCHANGED <<route, box, lazy, fails>>
        /\ \/ Running(st) /\ st' = Step(st, route, box, lazy, fails)
           \/ ~Running(st) /\ st.result # "released" /\ st' = Release(st)
Spec == Init /\ [][Next]_vars
Returned == ~Running(st)
NoDescriptor == Returned => st.fd = 0
(* a map outlives the call only while a lazily opened workbook needs it      *)
MapOnlyWhileNeeded == Returned /\ st.map = 1 => lazy /\ st.result = "open" /\ route = "mmap" /\ box # "pieces"
FailureKeepsNothing == st.result = "failed" => st.fd = 0 /\ st.map = 0
Export == IF st.result = "released" THEN PrintT("S|" \o ToJson([route |-> route, box |-> box, lazy |-> lazy, fails |-> fails])) ELSE TRUE
=============================================================================
