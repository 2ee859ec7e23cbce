---------------------------- MODULE TraceFileKind ----------------------------
(* S.start, S.names: the file.  The recorded run: O.kinds, what every way of
   asking answered; O.open: how opening it by each route ended - "refused" (the
   library's error naming the kind), "other" (any other error) or a digest of
   the workbook - and O.plain, the digest of the bare stream as bytes (O.old
   of the older one, when S.inside, the streams of the container, has two).   *)
EXTENDS FileKind
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, seen
vars == <<case, pos, seen>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ seen = Seen0
Step == pos < Len(S.names) /\ seen' = See(seen, S.names[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED case
K == Kind(S.start, seen)
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"works">>
         ELSE Failing(<<
           <<"kind", \A i \in DOMAIN O.kinds : Same(O.kinds[i], K)>>,
           <<"opening", \A i \in DOMAIN O.open :
              IF K \in {"xlsx", "xlsb", "ods", "zip"} THEN Same(O.open[i], "refused " \o K)
              ELSE IF S.book THEN Same(O.open[i], IF S.inside # <<>> /\ Which(S.inside) = "Book" THEN O.old ELSE O.plain)
              ELSE O.open[i] \in {"refused", "other"}>> >>)
Done == pos = Len(S.names) /\ pos' = pos + 1 /\ UNCHANGED <<case, seen>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
