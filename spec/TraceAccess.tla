---------------------------- MODULE TraceAccess ----------------------------
(* A sheet is read (records, as in TraceGrid), then a list of requests is
   answered; every answer must be the one of the unchanged grid.            *)
EXTENDS Access
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st, its, bad
vars == <<case, pos, st, its, bad>>
S == Cases[case].s
O == Cases[case].o
NE == Len(S.ev)
Fine == ~Cases[case].hang /\ ~Has(O, "err")
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Empty /\ its = <<>> /\ bad = {}
Read == /\ pos < NE
        /\ st' = Apply(st, S.ev[pos + 1], S.opt) /\ pos' = pos + 1 /\ UNCHANGED <<case, its, bad>>
Ask == /\ pos >= NE /\ pos < NE + Len(S.q)
       /\ LET k == pos - NE + 1 IN
          /\ bad' = IF Fine => Same(O.a[k], TLCEval(Answer(st, S.opt, its, S.q[k]))) THEN bad ELSE bad \cup {S.q[k].f}
          /\ its' = IterAfter(st, its, S.q[k])
       /\ pos' = pos + 1 /\ UNCHANGED <<case, st>>
Judge == IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">> ELSE SetToSeq(bad)
Done == /\ pos = NE + Len(S.q) /\ pos' = pos + 1 /\ UNCHANGED <<case, st, its, bad>> /\ Verdict(case, Judge)
Next == Read \/ Ask \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
