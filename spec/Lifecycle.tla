----------------------------- MODULE Lifecycle -----------------------------
(* A workbook as a state machine of loading, unloading and releasing.
   opt: n sheets, names (one text per sheet), lazy (opened on demand, in a
   version that allows it), bad (sheets whose data cannot be read).
   An answer is a value, or the kind of failure: "refused" (the library's own
   error), "fails" (any error).                                              *)
EXTENDS Common

Open(opt) == IF opt.lazy THEN [loaded |-> {}, released |-> FALSE, its |-> <<>>, held |-> <<>>]
             ELSE [loaded |-> 1..opt.n, released |-> TRUE, its |-> <<>>, held |-> <<>>]

Bad(opt, i) == \E k \in DOMAIN opt.bad : opt.bad[k] = i
IndexOf(opt, name) == LET S == {i \in 1..opt.n : Same(opt.names[i], name)}
                      IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Refused == "refused"
Fails == "fails"

(* Getting sheet i: <<state, answer>>.                                      *)
Fetch(st, opt, i) ==
   IF i \in st.loaded THEN <<st, i>>
   ELSE IF st.released THEN <<st, Refused>>
   ELSE IF Bad(opt, i) THEN <<st, Fails>>
   ELSE <<[st EXCEPT !.loaded = @ \cup {i}], i>>
Hold(r) == IF ~Same(r[2], Refused) /\ ~Same(r[2], Fails) THEN <<[r[1] EXCEPT !.held = Append(@, r[2])], r[2]>> ELSE r

(* all sheets, in order, until one fails                                    *)
FetchAll(st, opt) ==
   LET RECURSIVE go(_, _)
       go(s, i) == IF i > opt.n THEN <<s, "all">>
                   ELSE LET r == Fetch(s, opt, i) IN IF ~Same(r[2], i) THEN r ELSE go(r[1], i + 1)
   IN go(st, 1)
HoldAll(r, n) == IF Same(r[2], "all") THEN <<[r[1] EXCEPT !.held = @ \o [i \in 1..n |-> i]], r[2]>> ELSE r

(* q.t: how the sheet is named: "i" (number q.i) or "s" (text q.s)          *)
Target(opt, q) == IF q.t = "i" THEN (IF q.i + 1 \in 1..opt.n THEN q.i + 1 ELSE 0) ELSE IndexOf(opt, q.s)
NoSuch(q) == IF q.t = "i" THEN Fails ELSE Refused

Step(st, opt, q) ==
   CASE q.f = "get" -> LET i == Target(opt, q) IN IF i = 0 THEN <<st, NoSuch(q)>> ELSE Hold(Fetch(st, opt, i))
     [] q.f = "sheets" -> HoldAll(FetchAll(st, opt), opt.n)
     [] q.f = "list" -> HoldAll(FetchAll(st, opt), opt.n)
     [] q.f = "iter" -> <<[st EXCEPT !.its = Append(@, 0)], "ok">>
     [] q.f = "next" ->
          LET p == st.its[q.k] IN
          \* an iterator that has ended or failed is finished for good
          IF p = -1 \/ p = opt.n THEN <<[st EXCEPT !.its[q.k] = -1], "stop">>
          ELSE LET r == Fetch(st, opt, p + 1) IN
               IF ~Same(r[2], p + 1) THEN <<[r[1] EXCEPT !.its[q.k] = -1], r[2]>>
               ELSE Hold(<<[r[1] EXCEPT !.its[q.k] = p + 1], r[2]>>)
     [] q.f = "loaded" -> LET i == Target(opt, q) IN <<st, IF i = 0 THEN NoSuch(q) ELSE i \in st.loaded>>
     [] q.f = "unload" -> LET i == Target(opt, q) IN
          IF i = 0 THEN <<st, NoSuch(q)>> ELSE <<[st EXCEPT !.loaded = @ \ {i}], "ok">>
     [] q.f \in {"release", "leave", "leave_by_error"} -> <<[st EXCEPT !.released = TRUE], "ok">>
     [] q.f = "enter" -> <<st, "ok">>
     [] q.f \in {"names", "nsheets", "book"} -> <<st, q.f>>
     \* a sheet handed out earlier is looked at again
     [] q.f = "look" -> <<st, st.held[q.k]>>
=============================================================================
