--------------------------- MODULE TraceCalendar ---------------------------
(* Judges recorded runs of xlrd.xldate against Calendar.  A "year" trace is
   replayed month by month along the walk; the other kinds are single calls. *)
EXTENDS Calendar
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, bad
tvars == <<mode, y, m, serial, case, pos, bad>>
S == Cases[case].s
O == Cases[case].o

Init == /\ case \in 1..Len(Cases)
        /\ pos = 0 /\ bad = <<>>
        /\ LET s == Cases[case].s IN
           IF s.kind = "year"
           THEN mode = s.mode /\ y = s.y /\ m = s.m0 /\ serial = Serial(mode, y, m, 1)
           ELSE mode = 0 /\ y = 1900 /\ m = 1 /\ serial = 0

IsYear == Cases[case].s.kind = "year"
\* one month of the walk: the recorded segment must say that as_tuple,
\* as_datetime and from_date_tuple agree with the walk on every day of it
Month == /\ IsYear /\ pos < Len(S.months) /\ ~Cases[case].hang
         /\ LET seg == O.months[pos + 1]
                n == DaysIn(y, m)
            IN bad' = bad \o Failing(<<
                 <<"scenario_serial", S.months[pos + 1] = serial>>,
                 <<"as_tuple", Same(seg.tup, << <<serial, y, m, 1, n>> >>)>>,
                 <<"as_datetime", Same(seg.dt, << <<serial, y, m, 1, n>> >>)>>,
                 <<"from_date_tuple", Same(seg.inv, << <<serial, n>> >>)>> >>)
         /\ pos' = pos + 1 /\ UNCHANGED case
         /\ IF m < 12 THEN NextMonth
            ELSE IF y < 9999 THEN NextYear ELSE UNCHANGED calvars

In(o, set) == \E e \in set : Same(o, e)
JudgeOne ==
   CASE S.kind = "tuple" -> Failing(<< <<"as_tuple", In(O.r, AsTuple(S))>> >>)
     [] S.kind = "datetime" -> Failing(<< <<"as_datetime", In(O.r, AsDatetime(S))>> >>)
     [] S.kind = "fromdate" -> Failing(<< <<"from_date_tuple",
            Same(O.r, FromDate(S.mode, S.t[1], S.t[2], S.t[3]))>> >>)
     [] S.kind = "fromtime" -> Failing(<< <<"from_time_tuple",
            Same(O.r, FromTime(S.t[1], S.t[2], S.t[3]))>> >>)
     [] S.kind = "fromdatetime" -> Failing(<<
            <<"from_datetime_tuple", In(O.r, FromDateTime(S.mode, S.t))>>,
            <<"round_trip", Has(O.r, "e") \/ S.t[1] = 0 \/ Same(O.back, Ok(S.t))>> >>)
     [] S.kind = "seconds" ->   \* every second of one hour of one day, run-length coded
          Failing(<< <<"seconds", Same(O.r, << <<S.h * 3600, 3600>> >>)>>,
                     <<"seconds_dt", Same(O.d, << <<S.h * 3600, 3600>> >>)>> >>)
     [] S.kind = "bookmode" -> Failing(<< <<"datemode", Same(O.r, Ok(S.mode))>> >>)
     [] OTHER -> <<"unknown kind">>

Done == /\ IF IsYear THEN pos = Len(S.months) ELSE pos = 0
        /\ pos' = pos + 1000 /\ UNCHANGED <<case, mode, y, m, serial, bad>>
        /\ Verdict(case, IF Cases[case].hang THEN <<"hang">> ELSE IF IsYear THEN bad ELSE JudgeOne)
Hung == /\ Cases[case].hang /\ IsYear /\ pos = 0 /\ pos' = 1000
        /\ UNCHANGED <<case, mode, y, m, serial, bad>> /\ Verdict(case, <<"hang">>)
Next == Month \/ Done \/ Hung
Spec == Init /\ [][Next]_tvars
=============================================================================
