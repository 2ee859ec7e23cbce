---------------------------- MODULE DateFormatMC ----------------------------
(* Every format string over a small alphabet.  Text that is not live never
   changes the outcome, wherever it is inserted between live characters.      *)
EXTENDS DateFormat
CONSTANTS MaxLen, Export
Alphabet == {100, 77, 48, 35, 34, 92, 95, 91, 93, 59, 115, 120}   \* d M 0 # " \ _ [ ] ; s x
Dead == {<<34, 100, 48, 34>>, <<92, 109>>, <<42, 48>>, <<91, 82, 101, 100, 93>>, <<58>>, <<91, 36, 45, 52, 48, 57, 93>>}
VARIABLES u, l
vars == <<u, l>>
Init == u = <<>> /\ l = Lex0
Next == Len(u) < MaxLen /\ \E c \in Alphabet : u' = Append(u, c) /\ l' = LexStep(l, c)
Spec == Init /\ [][Next]_vars
Stepwise == l = Lex(u)
DeadTextDead == l.m = "live" => \A x \in Dead : LET k == Lex(u \o x) IN k.d = l.d /\ k.n = l.n /\ k.m = "live"
Exported == (Export /\ Legal(l) /\ Len(u) > 0) => PrintT("S|" \o ToJson(u))
=============================================================================
