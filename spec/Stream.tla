------------------------------- MODULE Stream -------------------------------
(* How a workbook stream is walked.  A substream is read record by record
   from just behind its BOF to the EOF that closes it.  An item of it is
   <<kind, id, size>>: "used" (a record, or a run of records that belong
   together, the reader needs), "noise" (any other record), "pass" (the
   password-encryption record), "bof" / "eof" (start and end of a nested
   substream, or the end of this one).  Only "used" items outside nested
   substreams may influence what is reported; nothing behind the closing EOF
   is looked at; a stream that stops before it is never half reported.       *)
EXTENDS Common

Walk0 == [verdict |-> "reading", depth |-> 0, at |-> 0, got |-> <<>>]
(* at: bytes walked.  room: bytes present; header: passwords count.           *)
Walk(st, it, room, header) ==
  IF st.verdict # "reading" THEN st
  ELSE IF st.at + it[3] > room THEN [st EXCEPT !.verdict = "cut"]
  ELSE LET n == [st EXCEPT !.at = @ + it[3]]
       IN CASE it[1] = "pass" /\ header /\ st.depth = 0 -> [n EXCEPT !.verdict = "encrypted"]
            [] it[1] = "used" /\ st.depth = 0 -> [n EXCEPT !.got = Append(@, it[2])]
            [] it[1] = "bof" -> [n EXCEPT !.depth = @ + 1]
            [] it[1] = "eof" /\ st.depth > 0 -> [n EXCEPT !.depth = @ - 1]
            [] it[1] = "eof" /\ st.depth = 0 -> [n EXCEPT !.verdict = "done"]
            [] OTHER -> n
WalkAll(items, room, header) ==
  LET st == FoldLeft(LAMBDA s, it : Walk(s, it, room, header), Walk0, items)
  IN IF st.verdict = "reading" THEN [st EXCEPT !.verdict = "cut"] ELSE st
=============================================================================
