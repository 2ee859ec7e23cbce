-------------------------- MODULE TraceCellNames --------------------------
(* A trace is a list of requests for names and the text each one returned.  *)
EXTENDS CellNames
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, bad
vars == <<case, pos, bad>>
S == Cases[case].s
O == Cases[case].o
B(x) == x # 0
Fl(f) == [i \in DOMAIN f |-> B(f[i])]
Expected(q) ==
   CASE q.f = "colname" -> {ColName(q.a[1])}
     [] q.f = "cellname" -> {CellA1(q.a[1], q.a[2])}
     [] q.f = "cellnameabs" -> {AbsName(q.a[1], q.a[2], B(q.a[3]))}
     [] q.f = "cellnamerel" -> {CellRel(q.a[1], q.a[2], B(q.a[3]), B(q.a[4]), q.a[5], q.a[6], B(q.a[7]))}
     [] q.f = "rangename2d" -> {RangeAbs(q.a, B(q.r1c1))}
     [] q.f = "rangename2drel" -> {RangeRel(q.a, Fl(q.fl), q.b[1], q.b[2], B(q.r1c1))}
     [] q.f = "sheetrange" -> SheetRange(S.names, q.a[1], q.a[2])
     [] q.f = "rangename3d" -> Range3d(S.names, q.a)
     [] q.f = "rangename3drel" -> Range3dRel(S.names, q.a, Fl(q.fl), q.b[1], q.b[2], B(q.r1c1))
Ok(i) == Same(O.t[i], "absent") \/ \E x \in Expected(S.q[i]) : Same(O.t[i], x)
Init == case \in 1..Len(Cases) /\ pos = 0 /\ bad = {}
Fine == ~Cases[case].hang /\ ~Has(O, "err")
Step == /\ pos < Len(S.q)
        /\ bad' = IF ~Fine \/ Ok(pos + 1) THEN bad ELSE bad \cup {S.q[pos + 1].f}
        /\ pos' = pos + 1 /\ UNCHANGED case
Judge == IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE SetToSeq(bad)
Done == /\ pos = Len(S.q) /\ pos' = pos + 1 /\ UNCHANGED <<case, bad>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
