----------------------------- MODULE CellNames -----------------------------
(* Names of columns, cells, ranges and sheet ranges.  Text is a sequence of
   UTF-16 code units.  Rows, columns and sheets are 0-based numbers; ranges
   are half open.  A relative coordinate is an offset from a base cell.      *)
EXTENDS Common

LOCAL Dollar == <<36>>
LOCAL Colon == <<58>>
LOCAL Bang == <<33>>
LOCAL Quote == 39

RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n)
          ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

(* ---- columns: bijective base 26 ---- *)
RECURSIVE ColName(_)
ColName(n) == IF n < 26 THEN <<65 + n>> ELSE ColName((n \div 26) - 1) \o <<65 + (n % 26)>>
ColValue(u) == LET RECURSIVE go(_)
                   go(k) == IF k = 0 THEN 0 ELSE 26 * go(k - 1) + (u[k] - 64)
               IN go(Len(u)) - 1
(* the name after u when columns are listed in order: an odometer           *)
RECURSIVE NextName(_)
NextName(u) == IF u = <<>> THEN <<65>>
               ELSE IF u[Len(u)] = 90 THEN NextName(Take(u, Len(u) - 1)) \o <<65>>
               ELSE Take(u, Len(u) - 1) \o <<u[Len(u)] + 1>>

(* ---- cells ---- *)
CellA1(r, c) == ColName(c) \o Dec(r + 1)
CellAbs(r, c) == Dollar \o ColName(c) \o Dollar \o Dec(r + 1)
CellR1C1(r, c) == <<82>> \o Dec(r + 1) \o <<67>> \o Dec(c + 1)
AbsName(r, c, r1c1) == IF r1c1 THEN CellR1C1(r, c) ELSE CellAbs(r, c)

(* One coordinate; base < 0: no base given.  n: size of the dimension, for
   offsets that wrap round.                                                  *)
Rel1(letter, x) == IF x = 0 THEN <<letter>> ELSE <<letter, 91>> \o Dec(x) \o <<93>>
RowPart(x, rel, base, r1c1) ==
   IF r1c1 THEN IF rel THEN Rel1(82, x) ELSE <<82>> \o Dec(x + 1)
   ELSE IF rel THEN Dec(((base + x) % 65536) + 1) ELSE Dollar \o Dec(x + 1)
ColPart(x, rel, base, r1c1) ==
   IF r1c1 THEN IF rel THEN Rel1(67, x) ELSE <<67>> \o Dec(x + 1)
   ELSE IF rel THEN ColName((base + x) % 256) ELSE Dollar \o ColName(x)
(* A relative coordinate without a base cell can only be shown as R1C1.     *)
Forced(rrel, crel, br, bc, r1c1) == r1c1 \/ (rrel /\ br < 0) \/ (crel /\ bc < 0)
CellRel(r, c, rrel, crel, br, bc, r1c1) ==
   LET f == Forced(rrel, crel, br, bc, r1c1) IN
   IF f THEN RowPart(r, rrel, br, f) \o ColPart(c, crel, bc, f)
   ELSE ColPart(c, crel, bc, f) \o RowPart(r, rrel, br, f)

(* ---- ranges <<rlo, rhi, clo, chi>> ---- *)
RangeAbs(q, r1c1) ==
   IF q[2] = q[1] + 1 /\ q[4] = q[3] + 1 THEN AbsName(q[1], q[3], r1c1)
   ELSE AbsName(q[1], q[3], r1c1) \o Colon \o AbsName(q[2] - 1, q[4] - 1, r1c1)
(* flags <<rlo, rhi, clo, chi>>; always shown with both corners             *)
RangeRel(q, f, br, bc, r1c1) ==
   LET fc == r1c1 \/ ((f[1] \/ f[2]) /\ br < 0) \/ ((f[3] \/ f[4]) /\ bc < 0) IN
   CellRel(q[1], q[3], f[1], f[3], br, bc, fc) \o Colon \o CellRel(q[2] - 1, q[4] - 1, f[2], f[4], br, bc, fc)

(* ---- sheet prefixes ---- *)
Digit(x) == x \in 48..57
Letter(x) == x \in 65..90 \cup 97..122
LOCAL Up(x) == IF x \in 97..122 THEN x - 32 ELSE x
(* something that could be read as a cell: letters then digits, or R1C1     *)
LOCAL LeadLetters(u) == LET RECURSIVE go(_)
                            go(i) == IF i > Len(u) \/ ~Letter(u[i]) THEN i - 1 ELSE go(i + 1)
                        IN go(1)
CellLike(u) ==
   \/ LET n == LeadLetters(u) IN n \in 1..3 /\ n < Len(u) /\ \A i \in n+1..Len(u) : Digit(u[i])
   \/ \A i \in DOMAIN u : Digit(u[i]) \/ Up(u[i]) \in {82, 67}
MustQuote(u) == \/ u = <<>> \/ Digit(u[1])
                \/ \E i \in DOMAIN u : u[i] \in 0..127 /\ ~(Letter(u[i]) \/ Digit(u[i]) \/ u[i] \in {95, 46})
MustNotQuote(u) == /\ u # <<>> /\ (Letter(u[1]) \/ u[1] = 95) /\ ~CellLike(u)
                   /\ \A i \in DOMAIN u : Letter(u[i]) \/ Digit(u[i]) \/ u[i] = 95
Doubled(u) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(u) THEN <<>>
                           ELSE IF u[i] = Quote THEN <<Quote, Quote>> \o go(i + 1) ELSE <<u[i]>> \o go(i + 1)
              IN go(1)
Quoted(u) == <<Quote>> \o Doubled(u) \o <<Quote>>
(* the ways a sheet name may legally be shown                               *)
Shown(u) == IF MustQuote(u) THEN {Quoted(u)} ELSE IF MustNotQuote(u) THEN {u} ELSE {u, Quoted(u)}
(* sheets lo..hi-1 of the list of names                                     *)
SheetRange(names, lo, hi) ==
   IF hi = lo + 1 THEN Shown(names[lo + 1])
   ELSE {a \o Colon \o b : a \in Shown(names[lo + 1]), b \in Shown(names[hi])}
        \cup (IF MustNotQuote(names[lo + 1]) /\ MustNotQuote(names[hi]) THEN {}
              ELSE {<<Quote>> \o Doubled(names[lo + 1]) \o Colon \o Doubled(names[hi]) \o <<Quote>>})
Range3d(names, q) == {s \o Bang \o RangeAbs(SubSeq(q, 3, 6), FALSE) : s \in SheetRange(names, q[1], q[2])}
(* sheet-relative references (0, 1, relative) name no sheet                 *)
Range3dRel(names, q, f, br, bc, r1c1) ==
   LET rng == RangeRel(SubSeq(q, 3, 6), SubSeq(f, 3, 6), br, bc, r1c1) IN
   IF f[1] /\ f[2] THEN {rng} ELSE {s \o Bang \o rng : s \in SheetRange(names, q[1], q[2])}
=============================================================================
