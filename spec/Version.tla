------------------------------ MODULE Version ------------------------------
(* How the first record of a stream decides what the stream is: the leading
   bytes are taken in four steps (kind of record, length, fields, meaning).
   At each step the stream may turn out not to be a workbook.                *)
EXTENDS Grid

\* opcode -> the least length of its fields
BofLen == (9 :> 4) @@ (521 :> 6) @@ (1033 :> 6) @@ (2057 :> 8)   \* 0x0009 0x0209 0x0409 0x0809
Word(b, i) == b[i] + 256 * b[i + 1]                             \* 1-based
At(b, i) == IF i + 1 <= Len(b) THEN Word(b, i) ELSE 0

\* kinds of stream
GLOBALS == 5   SHEET == 16   GLOBALS4 == 256

LeadStart(b) == [ph |-> "kind", b |-> b, op |-> -1, len |-> 0, out |-> <<>>]
Refuse(s) == [s EXCEPT !.ph = "done", !.out = <<0>>]
(* Excel 5 and 95 write the same version number; the build and its year tell
   them apart.                                                               *)
FiveOrSeven(build, year) == IF year < 1994 \/ build \in {2412, 3218, 3321} THEN 50 ELSE 70
(* some programs put the new record in front of an old stream               *)
Dodgy == (0 :> 21) @@ (7 :> 21) @@ (512 :> 21) @@ (768 :> 30) @@ (1024 :> 40)
Declared(op, v, build, year) ==
    CASE op = 9 -> 21 [] op = 521 -> 30 [] op = 1033 -> 40
      [] OTHER -> IF v = 1536 THEN 80 ELSE IF v = 1280 THEN FiveOrSeven(build, year)
                  ELSE IF v \in DOMAIN Dodgy THEN Dodgy[v] ELSE 0
(* what a stream of this version and kind is to be read as; 0: nothing       *)
Meaning(v, kind) == IF v = 0 THEN 0
                    ELSE IF v >= 50 THEN (IF kind = GLOBALS THEN v ELSE 0)
                    ELSE IF kind = SHEET THEN v
                    ELSE IF v = 40 /\ kind = GLOBALS4 THEN 45 ELSE 0
LeadStep(s) ==
    LET b == s.b IN
    CASE s.ph = "kind" -> IF Len(b) < 2 \/ Word(b, 1) \notin DOMAIN BofLen THEN Refuse(s)
                          ELSE [s EXCEPT !.ph = "length", !.op = Word(b, 1)]
      [] s.ph = "length" -> IF Len(b) < 4 \/ Word(b, 3) < 4 \/ Word(b, 3) > 20 THEN Refuse(s)
                            ELSE [s EXCEPT !.ph = "fields", !.len = Word(b, 3)]
      [] s.ph = "fields" -> IF Len(b) < 4 + s.len THEN Refuse(s)
                            ELSE [s EXCEPT !.ph = "meaning", !.b = SubSeq(b, 5, 4 + s.len)]
      [] s.ph = "meaning" ->
            LET v == Declared(s.op, At(b, 1), At(b, 5), At(b, 7))
                m == Meaning(v, At(b, 3))

            \* a record too short for all of its fields may also be refused
            IN [s EXCEPT !.ph = "done", !.out = IF s.len < BofLen[s.op] /\ m # 0 THEN <<m, 0>> ELSE <<m>>]
      [] OTHER -> s
RECURSIVE LeadRun(_)
LeadRun(s) == IF s.ph = "done" THEN s ELSE LeadRun(LeadStep(s))
Lead(b) == LeadRun(LeadStart(b)).out

(* A version 2 stream is 2.1 if it has style records and 2.0 if it has cells
   but none; with neither it could be both.                                  *)
Reported(m, styled, celled) == IF m # 21 THEN {m}
                               ELSE IF styled THEN {21} ELSE IF celled THEN {20} ELSE {20, 21}

(* One logical sheet, stored in any version.                                 *)
Fold(ev, opt) == LET RECURSIVE go(_, _)
                     go(st, i) == IF i > Len(ev) THEN st ELSE go(Apply(st, ev[i], opt), i + 1)
                 IN go(Empty, 1)
=============================================================================
