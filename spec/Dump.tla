-------------------------------- MODULE Dump --------------------------------
(* The diagnostic dump and the census.  A stream is a sequence of items
   <<"rec", code, len, present>> (present < len only for a last record cut
   short), <<"zero", n>> (a multiple of four zero bytes, any number at the
   end) and, at the end, <<"misc", n>> with n < 4 bytes.  The dump lists
   <<offset, "rec", code, len>> and <<offset, "zero", n>> / <<offset, "misc", n>>,
   covering the stream without gap or overlap.                               *)
EXTENDS Common

ItemSize(it) == IF it[1] = "rec" THEN 4 + it[4] ELSE it[2]
D0 == [at |-> 0, ev |-> <<>>]
Feed(st, it) ==
  LET n == [st EXCEPT !.at = @ + ItemSize(it)]
      last == Len(st.ev)
  IN CASE it[1] = "rec" -> [n EXCEPT !.ev = Append(@, <<st.at, "rec", it[2], it[3]>>)]
       [] it[1] = "zero" -> IF last > 0 /\ st.ev[last][2] = "zero"
                            THEN [n EXCEPT !.ev[last] = <<@[1], "zero", @[3] + it[2]>>]
                            ELSE [n EXCEPT !.ev = Append(@, <<st.at, "zero", it[2]>>)]
       [] it[1] = "misc" -> [n EXCEPT !.ev = Append(@, <<st.at, "misc", it[2]>>)]
FeedAll(items) == FoldLeft(Feed, D0, items)
Recs(ev) == SelectSeq(ev, LAMBDA e : e[2] = "rec")
Fill(ev) == SelectSeq(ev, LAMBDA e : e[2] # "rec")

(* The same from the bytes.  A header is four bytes <<code, len, 0, 0>>.     *)
Byte(m, p) == IF p + 1 \in DOMAIN m THEN m[p + 1] ELSE 0
ZeroFrom(m, p) == \A i \in (p + 1)..Len(m) : m[i] = 0
RECURSIVE Bytes(_, _, _)
Bytes(m, p, ev) ==
  LET T == Len(m)
      last == Len(ev)
      addz(n) == IF last > 0 /\ ev[last][2] = "zero" THEN [ev EXCEPT ![last] = <<@[1], "zero", @[3] + n>>]
                 ELSE Append(ev, <<p, "zero", n>>)
  IN IF T - p < 4 THEN IF p < T THEN Append(ev, <<p, "misc", T - p>>) ELSE ev
     ELSE IF Byte(m, p) = 0 /\ Byte(m, p + 1) = 0
          THEN IF ZeroFrom(m, p) THEN addz(T - p) ELSE Bytes(m, p + 4, addz(4))
          ELSE Bytes(m, p + 4 + Byte(m, p + 1), Append(ev, <<p, "rec", Byte(m, p), Byte(m, p + 1)>>))
=============================================================================
