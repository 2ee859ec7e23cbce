---------------------------- MODULE TraceOptions ----------------------------
(* S.steps: the requests; O.base: what each book shows when opened alone with
   everything loaded; O.steps: what was observed at each request.            *)
EXTENDS Options
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, hs, bad
vars == <<case, pos, hs, bad>>
S == Cases[case].s
O == Cases[case].o
Broken == Cases[case].hang \/ Has(O, "err")
Init == case \in 1..Len(Cases) /\ pos = 0 /\ hs = Start /\ bad = <<>>
Book(w) == [O.base[w] EXCEPT !.ver = S.books[w].ver, !.cp = S.books[w].cp]
Old(w) == S.books[w].ver <= 45
Judge1(q, ob, hs2) ==
    IF Has(ob, "err") THEN <<"request_failed">>
    ELSE LET h == IF q.q = "open" THEN Len(hs2) ELSE q.h
             b == Book(hs2[h].w)
             o == hs2[h].o
         IN Talk(ob, b, o) \o
            (CASE q.q = "open" -> ShowsBook(ob, b, o) \o
                     (IF Same(ob.n, b.n) THEN <<>> ELSE <<"number_of_sheets">>)
               [] q.q = "sheet" -> ShowsSheet(ob, b.sheets[q.i + 1], o)
               [] q.q = "book" -> ShowsBook(ob, b, o)
               [] OTHER -> <<>>)
Step == /\ ~Broken /\ pos < Len(S.steps)
        /\ LET q == S.steps[pos + 1]
           IN /\ hs' = CASE q.q = "open" -> Open(hs, q.w, q.o, Old(q.w))
                         [] q.q = "sheet" -> Load(hs, q.h, q.i)
                         [] q.q = "close" -> Close(hs, q.h)
                         [] OTHER -> hs
              /\ bad' = IF bad # <<>> THEN bad ELSE Judge1(q, O.steps[pos + 1], hs')
        /\ pos' = pos + 1 /\ UNCHANGED case
Judge == IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">> ELSE bad
Done == (Broken \/ pos = Len(S.steps)) /\ pos' = 1000 /\ pos # 1000 /\ UNCHANGED <<case, hs, bad>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
