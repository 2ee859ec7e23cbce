----------------------------- MODULE TraceStream -----------------------------
(* S.subs: items of every substream, header first (the only one before
   version 5); S.start: where their first items lie; S.types: sheet types;
   S.size: bytes present; S.lazy; S.embed: sheets embedded in the header (4W).  The recorded run: O.open ("ok",
   "encrypted", "refused", other), then per worksheet, in O.subs, the ids
   reported, or 0 if it reports just what the plain file does, or "raises".
   O.head likewise for the workbook level.  O.fds, O.maps: handles and maps
   left open; O.file: TRUE if the file is as before.                         *)
EXTENDS Stream
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, res
vars == <<case, pos, res>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ res = <<>>
(* one substream per step *)
Step == /\ pos < Len(S.subs) /\ pos' = pos + 1 /\ UNCHANGED case
        /\ res' = Append(res, WalkAll(S.subs[pos + 1], S.size - S.start[pos + 1], pos = 0 \/ S.embed))
Sheets == [k \in 1..Len(res) - 1 |-> k + 1]
Work == SelectSeq(Sheets, LAMBDA k : S.types[k - 1] = 0)
Whole(k) == res[k].got = [i \in 1..S.n[k] |-> i]
Reports(k, o) == IF res[k].verdict # "done" THEN Same(o, "raises")
                 ELSE Same(o, res[k].got) \/ (Same(o, 0) /\ Whole(k))
WantOpen == IF res[1].verdict = "encrypted" THEN "encrypted"
            ELSE IF res[1].verdict = "cut" THEN "raises"
            ELSE IF S.embed /\ \E i \in DOMAIN Work : res[Work[i]].verdict = "encrypted" THEN "encrypted"
            ELSE IF ~S.lazy /\ \E i \in DOMAIN Work : res[Work[i]].verdict # "done" THEN "raises"
            ELSE "ok"
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE Failing(<<
           <<"opening", CASE WantOpen = "ok" -> Same(O.open, "ok")
                          [] WantOpen = "encrypted" -> Same(O.open, "encrypted")
                          [] OTHER -> /\ ~Same(O.open, "ok")
                                             \* the record that would refuse it may itself be the cut one
                                             /\ (Same(O.open, "encrypted") => \E i \in DOMAIN S.subs[1] : S.subs[1][i][1] = "pass")>>,
           <<"workbook_level", ~Same(O.open, "ok") \/ WantOpen # "ok" \/ Reports(1, O.head)>>,
           <<"sheets", ~Same(O.open, "ok") \/ WantOpen # "ok" \/
                       (/\ Len(O.subs) = Len(Work)
                        /\ \A i \in DOMAIN Work : Reports(Work[i], O.subs[i]))>>,
           <<"no_file_handle_left", Same(Get(O, "fds", 0), 0)>>,
           <<"no_memory_map_left", Same(Get(O, "maps", 0), 0)>>,
           <<"file_untouched", Same(Get(O, "file", TRUE), TRUE)>> >>)
Done == pos = Len(S.subs) /\ pos' = pos + 1 /\ UNCHANGED <<case, res>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
