----------------------------- MODULE SettingsMC -----------------------------
(* Every version, every set of settings (possibly repeated in a sheet), in
   every order; a reader sees the same settings whatever the order, absent
   ones keep their defaults, and a date written under the workbook's calendar
   is read back.  Exported for replay.                                       *)
EXTENDS Settings
CONSTANTS Versions, Again
VARIABLES ver, has, seen, st
svars == <<ver, has, seen, st>>
Kinds == {"mode", "country", "user", "page"}
Rec(k, at) == [op |-> k, at |-> at, v |-> IF k = "mode" THEN 1 ELSE 1251, a |-> 1, b |-> 49, u |-> <<65, 32, 66, 32>>]
Home(v) == IF v < 45 THEN "s" ELSE "h"
Possible == {Rec(k, at) : k \in has, at \in {"h", "s"}}
May(e) == /\ Counts(ver, e.op, e.at) /\ (e.at = "h" => ver >= 45)
          /\ (e.at # Home(ver) => Again /\ e.op \in {"country", "mode"})
          /\ (e.at = "h" => \A i \in DOMAIN seen : seen[i].at = "h")
          /\ \A i \in DOMAIN seen : seen[i] # e
Init == /\ ver \in Versions /\ has \in SUBSET Kinds /\ seen = <<>> /\ st = Settings0
Next == \E e \in Possible : May(e) /\ seen' = Append(seen, e) /\ st' = ReadSetting(ver, st, e) /\ UNCHANGED <<ver, has>>
Spec == Init /\ [][Next]_svars

Said(k) == \E i \in DOMAIN seen : seen[i].op = k
Faithful == /\ st.cal = (IF Said("mode") THEN 1 ELSE 0)
            /\ st.countries = (IF Said("country") THEN <<1, 49>> ELSE <<0, 0>>)
            /\ TrimRight(st.user) = (IF Said("user") THEN <<65, 32, 66>> ELSE <<>>)
            /\ st.page = (IF Said("page") THEN 1251 ELSE 0)
Dates == {<<1904, 1, 2>>, <<1904, 2, 29>>, <<1999, 12, 31>>, <<2000, 2, 29>>, <<2100, 3, 1>>, <<9999, 12, 31>>}
DatesReadBack == \A t \in Dates : DateSeen(st, Stored(st, t), 0) = t \o <<0, 0, 0>>
Complete == \A k \in has : Said(k)
Export == IF Complete THEN PrintT("S|" \o ToJson([ver |-> ver, ev |-> seen])) ELSE TRUE
=============================================================================
