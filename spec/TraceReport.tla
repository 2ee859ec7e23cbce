----------------------------- MODULE TraceReport -----------------------------
(* S.files, S.cmd, S.o: a command line; O.lines: the report, O.code: the exit
   status, O.perm: the order in which a file pattern lists them, O.timing: whether times were printed, O.log: files whose messages
   went to the log file, in order.                                           *)
EXTENDS Report
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
tvars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = R0(Cases[case].s.files)
Rest == UNCHANGED <<case>>
Perm == Get(O, "perm", <<>>)
Step == pos < Len(Perm) /\ st' = Process(st, S.cmd, S.o, Perm[pos + 1], S.files[Perm[pos + 1]]) /\ pos' = pos + 1 /\ Rest
Of(l, t) == SelectSeq(l, LAMBDA x : x[1] \in t)
Clause(name, t) == <<name, Same(Of(O.lines, t), Of(st.out, t))>>
(* object dumps may go elsewhere *)
Lines(l) == SelectSeq(l, LAMBDA x : x[1] # "font")
Logs == SelectSeq(O.perm, LAMBDA i : S.files[i].kind = "book" /\ (S.files[i].logs \/ (S.o.od /\ S.files[i].ver < 50)))
Quiet(l) == SelectSeq(l, LAMBDA i : i \in DOMAIN S.files /\ S.files[i].kind = "book")
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"runs_to_the_end">>
         ELSE Failing(<<
           <<"exit_status", Same(O.code, st.code)>>,
           Clause("files_and_failures", {"file", "failed", "unknown_command"}),
           Clause("headers", {"header"}),
           Clause("sheet_lines", {"sheet"}),
           Clause("cells", {"cell", "rows"}),
           Clause("labels", {"Col", "Row", "label"}),
           Clause("counts", {"xfstats", "types"}),
           Clause("names", {"name", "namedump", "namelist", "nonames"}),
           <<"fonts", Same(O.fonts, Of(st.out, {"font"}))>>,
           <<"nothing_else", Of(O.lines, {"other"}) = <<>> >>,
           <<"order", Len(O.lines) # Len(Lines(st.out)) \/ Same(O.lines, Lines(st.out))>>,
           <<"timing_on_request", ~(S.notime /\ O.timing)>>,
           <<"log_file", ~S.tolog \/ st.over \/ Same(Quiet(O.log), Logs)>> >>)
Done == pos = Len(Perm) /\ pos' = pos + 1 /\ UNCHANGED st /\ Rest /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
