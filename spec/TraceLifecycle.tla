--------------------------- MODULE TraceLifecycle ---------------------------
(* Judges a recorded history of requests.  Sheets are compared by a digest of
   everything they report; O.ref holds those of an eager open.               *)
EXTENDS Lifecycle
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st, bad
vars == <<case, pos, st, bad>>
S == Cases[case].s
O == Cases[case].o
Fine == ~Cases[case].hang /\ ~Has(O, "err")
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Open(S.opt) /\ bad = <<>>
Failed(a) == Same(a, "refused") \/ Same(a, "fails")
\* TLC compares values of different types only through Same
Agrees(q, want, a) == IF Same(want, TRUE) \/ Same(want, FALSE) THEN Same(a, want)
   ELSE IF \E i \in 1..S.opt.n : Same(want, i) THEN Same(a, O.ref[CHOOSE i \in 1..S.opt.n : Same(want, i)])
   ELSE IF Same(want, "all") THEN Same(a, O.ref)
   ELSE IF Same(want, "fails") THEN Failed(a)
   ELSE IF Same(want, "names") THEN Same(a, S.opt.names)
   ELSE IF Same(want, "nsheets") THEN Same(a, S.opt.n)
   ELSE IF Same(want, "book") THEN Same(a, O.book)
   ELSE Same(a, want)
Ask == /\ pos < Len(S.q) /\ Fine
       /\ LET q == S.q[pos + 1] r == Step(st, S.opt, q) IN
          /\ st' = r[1]
          /\ bad' = IF Agrees(q, r[2], O.a[pos + 1]) THEN bad
                    ELSE Append(bad, q.f \o (IF Failed(r[2]) THEN "_should_fail" ELSE IF Failed(O.a[pos + 1]) THEN "_fails" ELSE "_differs"))
       /\ pos' = pos + 1 /\ UNCHANGED case
Judge == IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">> ELSE bad
Done == /\ (pos = Len(S.q) \/ (~Fine /\ pos = 0)) /\ pos' = Len(S.q) + 1 /\ UNCHANGED <<case, st, bad>> /\ Verdict(case, Judge)
Next == Ask \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
