------------------------------- MODULE Dates --------------------------------
(* The two Excel date systems: the Gregorian calendar in closed form, and the
   conversions xlrd.xldate offers as relations on exact rationals (a time of
   day is a fraction num/2^exp of a day).                                    *)
EXTENDS Common

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31

\* ---- closed form, used as the invariant of the walk ---------------------
YearStart1900(y) == (* true Gregorian days from 1900-01-01 *)
    LET n == y - 1 IN n * 365 + n \div 4 - n \div 100 + n \div 400
                     - (1899 * 365 + 1899 \div 4 - 1899 \div 100 + 1899 \div 400)
MonthOffset(y, m) == LET RECURSIVE go(_)
                         go(k) == IF k = 0 THEN 0 ELSE DaysIn(y, k) + go(k - 1)
                     IN go(m - 1)
\* Excel serial of a date.  1900 system: valid from 1900-03-01 (serial 61; the
\* phantom 1900-02-29 is serial 60).  1904 system: 1904-01-01 is 0.
Serial(mode, y, m, d) ==
    LET g == YearStart1900(y) + MonthOffset(y, m) + d   \* 1900-01-01 -> 1
    IN IF mode = 0 THEN g + 1 ELSE g - 1461
FirstValid(mode) == IF mode = 0 THEN 61 ELSE 1
TooLarge(mode) == Serial(mode, 9999, 12, 31) + 1

\* ---- the inverse, by search over years (no Julian-day arithmetic) --------
YearOf(mode, s) == LET lo == 1900 + Max2(0, (s + (IF mode = 0 THEN 0 ELSE 1462)) \div 366 - 1)
                   IN CHOOSE y \in lo..(lo + 8) :
                        Serial(mode, y, 1, 1) <= s /\ s < Serial(mode, y + 1, 1, 1)
DateOf(mode, s) ==
    LET g == s + (IF mode = 0 THEN 0 ELSE 1462)
        y0 == 1900 + (g - 1) \div 366
        RECURSIVE up(_)
        up(y) == IF Serial(mode, y + 1, 1, 1) <= s THEN up(y + 1) ELSE y
        y == up(Max2(1900, y0))
        r == s - Serial(mode, y, 1, 1)
        RECURSIVE mon(_, _)
        mon(m, k) == IF k < DaysIn(y, m) THEN <<m, k + 1>> ELSE mon(m + 1, k - DaysIn(y, m))
        md == mon(1, r)
    IN <<y, md[1], md[2]>>

\* ---- a day fraction num/2^exp: the possible nearest units ----------------
\* (both neighbours of an exact tie are "nearest")
Nearest(num, exp, unit) ==
    LET den == Pow2(exp)
        p == num * unit
        q == p \div den
        r == 2 * (p % den)
    IN IF r < den THEN {q} ELSE IF r > den THEN {q + 1} ELSE {q, q + 1}
\* seconds of day for  frac = num/2^exp  (up = FALSE) or 1 - num/2^exp (up)
Seconds(c) == IF c.up THEN {86400 - k : k \in Nearest(c.num, c.exp, 86400)}
              ELSE Nearest(c.num, c.exp, 86400)
Hms(s) == <<s \div 3600, (s % 3600) \div 60, s % 60>>

Err(n) == [e |-> n]
Ok(v) == [v |-> v]

\* serial = sign * (day + fraction): the set of permitted outcomes
AsTuple(c) ==
    IF c.mode \notin {0, 1} THEN {Err("XLDateBadDatemode")}
    ELSE IF c.neg /\ (c.day > 0 \/ c.num > 0) THEN {Err("XLDateNegative")}
    ELSE LET day0 == IF c.up /\ c.num = 0 THEN c.day + 1 ELSE c.day
             secs == IF c.up /\ c.num = 0 THEN {0} ELSE Seconds(c)
             one(sec) ==
               LET day == IF sec = 86400 THEN day0 + 1 ELSE day0
                   t == IF sec = 86400 THEN <<0, 0, 0>> ELSE Hms(sec)
               IN IF day >= TooLarge(c.mode) THEN Err("XLDateTooLarge")
                  ELSE IF day = 0 THEN Ok(<<0, 0, 0>> \o t)
                  ELSE IF day < FirstValid(c.mode) THEN Err("XLDateAmbiguous")
                  ELSE Ok(DateOf(c.mode, day) \o t)
         IN {one(s) : s \in secs}

\* datetime conversion, to the nearest millisecond; defined for day 0 up to
\* the last day of year 9999 (day 60 of the 1900 system doubles 28 February)
DtDate(mode, day) ==
    IF mode = 1 THEN IF day = 0 THEN <<1904, 1, 1>> ELSE DateOf(1, day)
    ELSE IF day = 0 THEN <<1899, 12, 31>>
    ELSE IF day < 60 THEN DateOf(0, day + 1) ELSE DateOf(0, day)
MilliNear(c) == (* base-1000 split keeps every product inside 32 bits *)
    LET den == Pow2(c.exp)
        p == c.num * 86400
        s == p \div den
        r == p % den                       \* < den <= 2^21
        q == (r * 1000) \div den
        rr == 2 * ((r * 1000) % den)
        k == s * 1000 + q
    IN IF rr < den THEN {k} ELSE IF rr > den THEN {k + 1} ELSE {k, k + 1}
AsDatetime(c) ==
    {IF ms = 86400000
     THEN Ok(DtDate(c.mode, c.day + 1) \o <<0, 0, 0, 0>>)
     ELSE Ok(DtDate(c.mode, c.day) \o Hms(ms \div 1000) \o <<(ms % 1000) * 1000>>)
     : ms \in (IF c.up THEN {86400000 - k : k \in MilliNear(c)} ELSE MilliNear(c))}

FromDate(mode, y, m, d) ==
    IF mode \notin {0, 1} THEN Err("XLDateBadDatemode")
    ELSE IF y = 0 /\ m = 0 /\ d = 0 THEN Ok(0)
    ELSE IF y < 1900 \/ y > 9999 \/ m < 1 \/ m > 12 THEN Err("XLDateBadTuple")
    ELSE IF d < 1 \/ d > DaysIn(y, m) THEN Err("XLDateBadTuple")
    ELSE LET s == Serial(mode, y, m, d) IN
         IF s <= 0 THEN Err("XLDateBadTuple")
         ELSE IF s < FirstValid(mode) THEN Err("XLDateAmbiguous")
         ELSE Ok(s)
\* time tuple -> milliseconds of day
FromTime(h, mi, s) ==
    IF h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59 THEN Ok((h * 3600 + mi * 60 + s) * 1000)
    ELSE Err("XLDateBadTuple")
FromDateTime(mode, t) ==
    LET a == FromDate(mode, t[1], t[2], t[3])
        b == FromTime(t[4], t[5], t[6])
    IN IF Has(a, "e") THEN {a} \cup (IF Has(b, "e") THEN {b} ELSE {})
       ELSE IF Has(b, "e") THEN {b}
       ELSE {Ok(<<a.v, b.v>>)}
=============================================================================
