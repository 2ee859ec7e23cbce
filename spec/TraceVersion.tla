---------------------------- MODULE TraceVersion ----------------------------
(* S.t = "lead": a stream with the given first bytes and the given body;
   "alike": one logical book stored in several versions.  O lists what was
   read from each: [biff, names, sheets: <<nrows, ncols, cells>>].           *)
EXTENDS Version
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, st
vars == <<case, st>>
S == Cases[case].s
O == Cases[case].o
Init == /\ case \in 1..Len(Cases)
        /\ st = LeadStart(IF Cases[case].s.t = "lead" THEN Cases[case].s.lead \o Cases[case].s.rest ELSE Cases[case].s.lead)
Step == st.ph \notin {"done", "end"} /\ st' = LeadStep(st) /\ UNCHANGED case

(* the sheets a version can hold: one before version 4W *)
Held(v) == IF v <= 40 THEN SubSeq(S.sheets, 1, 1) ELSE S.sheets
NameIn(v, sh) == IF v <= 40 THEN "Sheet 1" ELSE sh.name
View(sh) == LET g == Fold(sh.ev, S.opt) IN <<NRows(g), NCols(g), CellList(g)>>
(* without formatting, cells that hold nothing are not looked at *)
Celled == \E i \in DOMAIN S.sheets[1].ev : S.opt.fmt \/ S.sheets[1].ev[i].op # "blank"
GoodBook(o, v) ==
    /\ \E b \in Reported(IF v = 20 THEN 21 ELSE v, v # 20, Celled) : Same(o.biff, b)
    /\ Same(o.nsheets, Len(Held(v)))
    /\ Same(o.names, [i \in 1..Len(Held(v)) |-> NameIn(v, Held(v)[i])])
    /\ Same(o.sheets, [i \in 1..Len(Held(v)) |-> View(Held(v)[i])])
(* a stream with the first record given and a body written for version S.ver
   (0: nothing but the end)                                                  *)
Agrees(v) == S.ver = v \/ (S.ver = 20 /\ v = 21)
EmptyBook(o, v) == /\ \E b \in Reported(v, FALSE, FALSE) : Same(o.biff, b)
                   /\ Same(o.nsheets, IF v <= 40 THEN 1 ELSE 0)
LeadOk(r) == IF r = 0 THEN Has(O, "refused")
             ELSE IF S.ver # 0 /\ ~Agrees(r) THEN TRUE      \* body of another version: anything
             ELSE IF Has(O, "refused") THEN FALSE
             ELSE IF S.ver = 0 THEN EmptyBook(O.books[1], r) ELSE GoodBook(O.books[1], S.ver)
Judge ==
    IF Cases[case].hang THEN <<"hang">>
    ELSE IF Has(O, "err") THEN
        (IF S.t = "lead" /\ S.ver # 0 /\ \E i \in DOMAIN st.out : st.out[i] # 0 /\ ~Agrees(st.out[i]) THEN <<>>
         ELSE <<"reads_or_refuses">>)
    ELSE IF S.t = "lead" THEN Failing(<< <<"first_record", \E i \in DOMAIN st.out : LeadOk(st.out[i])>> >>)
    ELSE Failing(<< <<"opens", ~Has(O, "refused")>>,
                    <<"alike", ~Has(O, "refused") => \A i \in DOMAIN S.vers : GoodBook(O.books[i], S.vers[i])>> >>)
Done == st.ph = "done" /\ st' = [st EXCEPT !.ph = "end"] /\ UNCHANGED case /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
