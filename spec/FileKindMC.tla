----------------------------- MODULE FileKindMC -----------------------------
(* Archives with up to N members out of a few telling names.                 *)
EXTENDS FileKind
CONSTANT N
VARIABLES names, seen, pos
vars == <<names, seen, pos>>
Up(u) == [i \in DOMAIN u |-> IF u[i] >= 97 /\ u[i] <= 122 THEN u[i] - 32 ELSE u[i]]
Back(u) == [i \in DOMAIN u |-> IF u[i] = 47 THEN 92 ELSE u[i]]
Pool == {XLSX, XLSB, ODS, Up(XLSX), Back(XLSB), Up(Back(XLSX)), Up(ODS),
         <<47>> \o XLSX, XLSX \o <<47>>, Tail(XLSB), <<120, 47>> \o ODS, Take(ODS, 7)}
Init == /\ \E n \in 0..N : names \in [1..n -> Pool]
        /\ \A i, j \in DOMAIN names : i # j => names[i] # names[j]
        /\ seen = Seen0 /\ pos = 0
Next == pos < Len(names) /\ seen' = See(seen, names[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED names
Spec == Init /\ [][Next]_vars
Of(s) == ZipKind(FoldLeft(See, Seen0, s))
OrderAndStyleFree == pos = Len(names) =>
  /\ Of(Reverse(names)) = ZipKind(seen)
  /\ Of([i \in DOMAIN names |-> Up(Back(names[i]))]) = ZipKind(seen)
Export == IF pos = Len(names) THEN PrintT("S|" \o ToJson([names |-> names])) ELSE TRUE
=============================================================================
