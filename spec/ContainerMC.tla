----------------------------- MODULE ContainerMC -----------------------------
(* Every allocation function over a handful of sectors.  A step-by-step reader
   (follow one link, claim one sector) is explored next to the declarative
   meaning of "sound chain" in Container; every function, start, size and mode
   is exported and replayed into the code.
   Sector 0 holds the allocation table, 1 the directory; the rest is data.    *)
EXTENDS Container
CONSTANTS NData, Starts, Sizes, Mini, Export
MiniStarts == {-2, -1, 0, 1, 2, 3}
N == NData + 2
Lo == IF Mini THEN 0 ELSE 2
Hi == IF Mini THEN NData - 1 ELSE N - 1
Dom == Lo..Hi
Values == IF Mini THEN {-2, -1} \cup 0..NData ELSE {-3, -2, -1} \cup 0..N
Unit == IF Mini THEN 64 ELSE 512
VARIABLES f, start, size, ignore, s, out, seen, res
vars == <<f, start, size, ignore, s, out, seen, res>>
Want == (size + Unit - 1) \div Unit
Init == /\ f \in [Dom -> Values] /\ start \in Starts /\ size \in Sizes
        /\ ignore \in (IF Mini THEN {FALSE} ELSE BOOLEAN)
        /\ s = start /\ out = <<>> /\ seen = (IF Mini THEN {} ELSE {0, 1}) /\ res = "reading"
Full == [k \in 0..Hi |-> IF k \in Dom THEN f[k] ELSE IF k = 0 THEN -3 ELSE -2]
Step ==
    /\ res = "reading"
    /\ UNCHANGED <<f, start, size, ignore>>
    /\ IF s = EOC THEN /\ res' = (IF Len(out) = Want THEN "data" ELSE "error")
                       /\ UNCHANGED <<s, out, seen>>
       ELSE IF s < 0 \/ s > Hi \/ (s \in seen /\ ~ignore /\ ~Mini) \/ Len(out) = Want
       THEN res' = "error" /\ UNCHANGED <<s, out, seen>>
       ELSE out' = Append(out, s) /\ seen' = seen \cup {s} /\ s' = Full[s] /\ UNCHANGED res
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the declarative meaning
Ch == Walk(Full, Hi + 1, start, <<>>)
Sound == ~Broken(Ch) /\ Len(Ch.ids) = Want /\ (ignore \/ Mini \/ Ids(Ch) \cap {0, 1} = {})
Agree == res # "reading" => (res = "data") = Sound
Exact == res = "data" => out = Ch.ids
Bounded == Len(out) <= Want
Terminates == <>(res # "reading")
Exported == (Export /\ s = start /\ out = <<>> /\ res = "reading") =>
    PrintT("S|" \o ToJson([f |-> [i \in 1..NData |-> f[Lo + i - 1]], start |-> start, size |-> size, ign |-> ignore]))
=============================================================================
