--------------------------- MODULE TraceEncoding ---------------------------
EXTENDS Encoding
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Enc0
Step == /\ pos < Len(S.ev) /\ st' = Read(st, S.ev[pos + 1], S.ver, S.ov) /\ pos' = pos + 1 /\ UNCHANGED case
Final == Flush(st, S.ver, S.ov)
Kind(i) == LET ts == SelectSeq(S.ev, LAMBDA e : e.op = "text") IN ts[i].k
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE IF Len(O.texts) # Len(Final.done) THEN <<"texts_missing">>
         ELSE SetToSeq({"text_of_" \o Kind(i) : i \in {i \in DOMAIN Final.done : ~Same(O.texts[i], Final.done[i])}})
              \o (IF S.ver >= 80 \/ Same(O.enc, Codec(S.ov, st.page)) \/ (Final.done = <<>> /\ Same(O.enc, "None")) THEN <<>> ELSE <<"encoding">>)
              \o (IF S.ver >= 80 \/ (IF st.page = 0 THEN Same(O.page, "None") ELSE Same(O.page, st.page)) THEN <<>> ELSE <<"codepage">>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
