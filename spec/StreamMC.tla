------------------------------ MODULE StreamMC ------------------------------
(* Every substream of up to N items, walked step by step, whole or cut;
   exported for replay.                                                      *)
EXTENDS Stream
CONSTANTS N, HDR
VARIABLES items, room, st, pos
vars == <<items, room, st, pos>>
Kinds == {"used", "noise", "bof", "eof"} \cup (IF HDR = 1 THEN {"pass"} ELSE {})
Mk(k) == [i \in 1..Len(k) |-> <<k[i], i, 4>>]
Init == /\ \E n \in 1..N : \E k \in [1..n -> Kinds] :
             items = Mk(k) /\ room \in {4 * i : i \in 0..n} \cup {1000}
        /\ st = Walk0 /\ pos = 0
Next == pos < Len(items) /\ st' = Walk(st, items[pos + 1], room, HDR = 1) /\ pos' = pos + 1 /\ UNCHANGED <<items, room>>
Spec == Init /\ [][Next]_vars

End == pos = Len(items)
NotNoise(it) == it[1] # "noise"
(* the walk of the stream without its noise reports the same                 *)
NoiseInvisible == End /\ room = 1000 =>
  LET w == WalkAll(SelectSeq(items, NotNoise), room, HDR = 1)
      v == WalkAll(items, room, HDR = 1)
  IN w.verdict = v.verdict /\ w.got = v.got
(* once closed or refused, nothing that follows matters                      *)
TailInvisible == End /\ st.verdict \in {"done", "encrypted"} =>
  \E i \in 1..Len(items) : /\ 4 * i = st.at
                           /\ \A j \in i..Len(items) : WalkAll(Take(items, j), room, HDR = 1).got = st.got
(* a stream cut anywhere before the place the whole one is done (or refused) is cut *)
CutDetected == End =>
  LET whole == WalkAll(items, 1000, HDR = 1)
  IN WalkAll(items, room, HDR = 1).verdict = IF whole.verdict # "cut" /\ room >= whole.at THEN whole.verdict ELSE "cut"
(* nothing nested is ever reported                                           *)
NestedInvisible == \A i \in 1..Len(st.got) :
  LET k == st.got[i] IN Cardinality({j \in 1..k : items[j][1] = "bof"}) = Cardinality({j \in 1..k : items[j][1] = "eof"})
(* a password record in the header is met unless the header ended before     *)
PasswordMet == End /\ HDR = 1 /\ room = 1000 /\ (\E i \in 1..Len(items) : items[i][1] = "pass")
                 /\ ~(\E i \in 1..Len(items) : items[i][1] \in {"bof", "eof"}) => st.verdict = "encrypted"
Export == IF End /\ (HDR = 0 \/ ~\E i \in DOMAIN items : items[i][1] = "bof")
          THEN PrintT("S|" \o ToJson([items |-> items, cut |-> IF room = 1000 THEN -1 ELSE room \div 4])) ELSE TRUE
=============================================================================
