----------------------------- MODULE OptionsMC -----------------------------
(* Every history of up to N requests over two workbooks with two worksheets;
   opening one twice with different options is included.                    *)
EXTENDS Options
CONSTANT N
VARIABLES hs, hist
vars == <<hs, hist>>
Init == hs = Start /\ hist = <<>>
Opts == [fmt : BOOLEAN, od : BOOLEAN]
Next == /\ Len(hist) < N
        /\ \/ \E w \in 1..2, o \in Opts : /\ Len(hs) < 3
                /\ hs' = Open(hs, w, o, FALSE) /\ hist' = Append(hist, [q |-> "open", w |-> w, fmt |-> o.fmt, od |-> o.od])
           \/ \E h \in DOMAIN hs, i \in 0..1 : /\ CanLook(hs, h, i)
                /\ hs' = Load(hs, h, i) /\ hist' = Append(hist, [q |-> "sheet", h |-> h, i |-> i])
           \/ \E h \in DOMAIN hs : /\ ~hs[h].closed
                /\ hs' = Close(hs, h) /\ hist' = Append(hist, [q |-> "close", h |-> h])
Spec == Init /\ [][Next]_vars
(* what a handle can show is decided by its own requests alone               *)
Own(h) == SelectSeq(hist, LAMBDA e : e.q # "open" /\ e.h = h)
Isolated == \A h \in DOMAIN hs :
    /\ hs[h].closed <=> \E k \in DOMAIN Own(h) : Own(h)[k].q = "close"
    /\ hs[h].loaded \ {-1} = {Own(h)[k].i : k \in {j \in DOMAIN Own(h) : Own(h)[j].q = "sheet"}}
    /\ (hs[h].o.od <=> -1 \notin hs[h].loaded)
Export == IF Len(hist) = N /\ Len(hs) >= 2 /\ hist[N].q = "sheet" THEN PrintT("S|" \o ToJson(hist)) ELSE TRUE
=============================================================================
