------------------------------ MODULE TraceDump ------------------------------
(* O.ev: what the dump listed; O.pay: payload digests of its records, S.pay
   the true ones; O.names: name per listed record ("" if unknown); O.census:
   pairs <<name, count>>, unknown kinds as "u" and the code.                  *)
EXTENDS Dump
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, st, pos
vars == <<case, st, pos>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ st = D0 /\ pos = 0
Step == pos < Len(S.items) /\ st' = Feed(st, S.items[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED case
Known == [x \in {"2057", "10", "515", "252", "253", "133", "60", "47", "6", "638", "9", "1033", "512"} |->
          CASE x = "2057" -> "BOF" [] x = "10" -> "EOF" [] x = "515" -> "NUMBER" [] x = "252" -> "SST" [] x = "253" -> "LABELSST"
            [] x = "133" -> "BOUNDSHEET" [] x = "60" -> "CONTINUE" [] x = "47" -> "FILEPASS" [] x = "6" -> "FORMULA" [] x = "638" -> "RK"
            [] x = "9" -> "BOF_B2" [] x = "1033" -> "BOF" [] x = "512" -> "DIMENSIONS"]
R == Recs(st.ev)
Off(e) == IF S.numbered THEN e ELSE <<-1>> \o Tail(e)
Kind(i) == IF Same(O.names[i], "") THEN "u" \o ToString(R[i][3]) ELSE O.names[i]
Kinds == {Kind(i) : i \in DOMAIN R}
Count(k) == Cardinality({i \in DOMAIN R : Kind(i) = k})
(* zero bytes may be labelled either way only before the last record          *)
MidZeros == \E i \in DOMAIN st.ev : i < Len(st.ev) /\ st.ev[i][2] = "zero"
IsString(x) == Same(x, ToString(x))
Census == {c \in ToSet(O.census) : ~(MidZeros /\ c[1] = "zero")}
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"works">>
         ELSE Failing(<<
           <<"every_record_once_in_order", Same([i \in DOMAIN Recs(O.ev) |-> Recs(O.ev)[i]], [i \in DOMAIN R |-> Off(R[i])])>>,
           <<"payload", Same(O.pay, S.pay)>>,
           <<"filler", Same([i \in DOMAIN Fill(O.ev) |-> Fill(O.ev)[i]], [i \in DOMAIN Fill(st.ev) |-> Off(Fill(st.ev)[i])])>>,
           <<"names", Len(O.names) # Len(R) \/ \A i \in DOMAIN R : LET c == ToString(R[i][3]) IN c \in DOMAIN Known => Same(O.names[i], Known[c])>>,
           <<"census", Len(O.names) # Len(R) \/
              (/\ Cardinality(Census) = Cardinality(Kinds)
               /\ \A c \in Census : c[1] \in Kinds /\ Same(c[2], Count(c[1])))>> >>)
Done == pos = Len(S.items) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
