------------------------------ MODULE Calendar ------------------------------
(* The two Excel date systems as a machine that walks the Gregorian calendar
   month by month; Dates is its closed form.                                 *)
EXTENDS Dates

\* ---- the walk -----------------------------------------------------------
VARIABLES mode, y, m, serial     \* serial of day 1 of month m of year y
calvars == <<mode, y, m, serial>>
CONSTANTS FirstYear, LastYear
CalInit == /\ mode \in {0, 1} /\ y \in FirstYear..LastYear /\ m = 1
           /\ serial = Serial(mode, y, 1, 1)
NextMonth == /\ m < 12
             /\ m' = m + 1 /\ serial' = serial + DaysIn(y, m)
             /\ UNCHANGED <<mode, y>>
NextYear == /\ m = 12 /\ y < 9999
            /\ m' = 1 /\ y' = y + 1 /\ serial' = serial + 31
            /\ UNCHANGED mode
CalNext == NextMonth \/ NextYear
CalSpec == CalInit /\ [][CalNext]_calvars

ClosedForm == serial = Serial(mode, y, m, 1)
InverseOk == \A d \in {1, DaysIn(y, m)} : DateOf(mode, serial + d - 1) = <<y, m, d>>
Systems == (mode = 0) => serial - Serial(1, y, m, 1) = 1462
TooLargeOk == TooLarge(0) = 2958466 /\ TooLarge(1) = 2958466 - 1462
              /\ Serial(0, 1900, 3, 1) = 61 /\ Serial(1, 1904, 1, 2) = 1
Monotone == [][serial' > serial \/ y' # y]_calvars
RoundTrip == serial >= FirstValid(mode) =>
               FromDate(mode, y, m, 1) = Ok(serial)
               /\ AsTuple([mode |-> mode, neg |-> FALSE, day |-> serial, num |-> 0, exp |-> 0, up |-> FALSE])
                    = {Ok(<<y, m, 1, 0, 0, 0>>)}
=============================================================================
