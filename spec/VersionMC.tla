----------------------------- MODULE VersionMC -----------------------------
(* Every leading record with fields from the telling values; what it means is
   checked to be a function of the record alone, and exported for replay.    *)
EXTENDS Version
CONSTANTS Deep
VARIABLES st, lead
vars == <<st, lead>>
W(n) == <<n % 256, n \div 256>>
Ops == {9, 521, 1033, 2057} \cup {0, 8, 265, 777, 1289, 2313, 2058, 65535}
Lens == {0, 3, 4, 6, 8, 16, 20, 21} \cup (IF Deep THEN {5, 7, 12} ELSE {})
Vs == {0, 7, 512, 768, 1024, 1280, 1536} \cup (IF Deep THEN {256, 1281, 1792, 6} ELSE {1792})
Kinds == {5, 16, 256} \cup (IF Deep THEN {6, 32, 64, 0, 1280} ELSE {32})
Builds == {2412, 3218, 3321, 3515}
Years == {0, 1993, 1994, 1997}
Fields(op, v, k) ==
    IF op = 2057 /\ v = 1280 THEN {W(v) \o W(k) \o W(b) \o W(y) : b \in Builds, y \in Years}
    ELSE {W(v) \o W(k) \o W(3515) \o W(1996)}
Pad(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rep(65, n - Len(s))
Init == \E op \in Ops, n \in Lens, v \in Vs, k \in Kinds :
          /\ (op \notin DOMAIN BofLen => v = 1536 /\ k = 5 /\ n = 16)
          /\ (n \notin {4, 6, 8, 16} => v \in {512, 1280, 1536})
          /\ \E f \in Fields(op, v, k) : \E cut \in {0, 1, 3, n} :
               /\ (cut # 0 => v \in {512, 1536} /\ k \in {5, 16})
               /\ lead = (W(op) \o W(n) \o Pad(f, IF cut > n THEN 0 ELSE n - cut))
               /\ st = LeadStart(lead)
Next == st.ph # "done" /\ st' = LeadStep(st) /\ UNCHANGED lead
Spec == Init /\ [][Next]_vars
Total == st.ph = "done" => st.out # <<>> /\ \A i \in DOMAIN st.out : st.out[i] \in {0, 21, 30, 40, 45, 50, 70, 80}
(* only a stream which starts with a known record of a sound length, complete,
   is read                                                                   *)
Sound == st.ph = "done" /\ st.out[1] # 0 =>
            /\ Word(lead, 1) \in DOMAIN BofLen /\ Word(lead, 3) \in 4..20 /\ Len(lead) >= 4 + Word(lead, 3)
(* what follows the leading record does not matter                           *)
Local == st.ph = "done" /\ st.out[1] # 0 => Lead(lead \o <<10, 0, 0, 0>>) = st.out
Export == IF st.ph = "done" THEN PrintT("S|" \o ToJson([lead |-> lead, cut |-> Len(lead) < 4 \/ Len(lead) < 4 + Word(lead, 3), v |-> st.out[1]])) ELSE TRUE
=============================================================================
