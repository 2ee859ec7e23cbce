------------------------------ MODULE Settings ------------------------------
(* The settings that hold for a whole workbook - calendar, countries, last
   author, code page - as a machine that reads their records wherever the file
   version keeps them: in the workbook's own header, or (up to version 4,
   where the sheet is the file, and for countries up to version 7) among the
   records of a sheet.  A record may be repeated; records of one kind agree.
   What each record says is independent of all the others.                   *)
EXTENDS Dates

Settings0 == [cal |-> 0, countries |-> <<0, 0>>, user |-> <<>>, page |-> 0]

White == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimRight(_)
TrimRight(u) == IF u # <<>> /\ u[Len(u)] \in White THEN TrimRight(SubSeq(u, 1, Len(u) - 1)) ELSE u

\* where a setting of kind k counts in version v: "h" header, "s" sheet
Counts(v, k, where) ==
    IF v < 50 THEN (IF v = 45 /\ where = "h" THEN TRUE ELSE where = "s")
    ELSE where = "h" \/ k = "country"
Put(st, e) ==
    CASE e.op = "mode" -> [st EXCEPT !.cal = e.v]
      [] e.op = "country" -> [st EXCEPT !.countries = <<e.a, e.b>>]
      [] e.op = "user" -> [st EXCEPT !.user = e.u]
      [] e.op = "page" -> [st EXCEPT !.page = e.v]
      [] OTHER -> st
ReadSetting(v, st, e) == IF Counts(v, e.op, e.at) THEN Put(st, e) ELSE st

\* a date cell whose serial is day + q quarters of a day
DateSeen(st, day, q) == DateOf(st.cal, day) \o Hms(q * 21600)
\* the serial a writer stores for a date
Stored(st, t) == Serial(st.cal, t[1], t[2], t[3])
=============================================================================
