-------------------------------- MODULE Text --------------------------------
(* How BIFF8 text is laid out over a record and its CONTINUE records, as a
   machine that consumes the stored pieces one by one.  A layout is a sequence
   of parts (record payloads), each a sequence of bytes.  Text is a sequence of
   16-bit units; how the units pair up into characters is not this machine's
   business, so a pair may straddle a boundary.                              *)
EXTENDS Common

U16(p, i) == p[i + 1] + 256 * p[i + 2]               \* little endian at offset i
I32(p, i) == U16(p, i) + 65536 * U16(p, i + 2)

(* st: ph   "head" | "chars" | "runs" | "phon" | "done" | "bad"
       k,o  part number and offset of the next byte
       need characters still to come; wide the option bit in force
       u    units so far; nr runs still to come; rs runs so far; np phonetic
       bytes still to come; out  the finished strings                        *)
Start(n, o) == [ph |-> IF n = 0 THEN "done" ELSE "head", k |-> 1, o |-> o, left |-> n, need |-> 0, wide |-> 0,
                u |-> <<>>, nr |-> 0, rs |-> <<>>, np |-> 0, out |-> <<>>]
\* units of part p, n of them, from offset o
Narrow(p, o, n) == [i \in 1..n |-> p[o + i]]
Wide(p, o, n) == [i \in 1..n |-> p[o + (2 * i) - 1] + 256 * p[o + (2 * i)]]

Finish(st) == [st EXCEPT !.out = Append(@, [u |-> st.u, rs |-> st.rs]), !.left = @ - 1,
                         !.ph = IF st.left = 1 THEN "done" ELSE "head"]
\* the phase that follows once the characters (resp. runs) are complete
AfterRuns(st) == IF st.np > 0 THEN [st EXCEPT !.ph = "phon"] ELSE Finish(st)
AfterChars(st) == IF st.nr > 0 THEN [st EXCEPT !.ph = "runs"] ELSE AfterRuns(st)

StepText(st, parts) ==
    IF st.ph \in {"done", "bad"} THEN st
    ELSE IF st.k > Len(parts) THEN [st EXCEPT !.ph = "bad"]
    ELSE LET p == parts[st.k]
             rest == Len(p) - st.o
         IN CASE rest = 0 ->
                 \* a boundary: a continuation of characters starts with a fresh
                 \* option byte, any other continuation does not
                 IF st.k = Len(parts) THEN [st EXCEPT !.ph = "bad"]
                 ELSE IF st.ph = "chars"
                      THEN IF parts[st.k + 1] = <<>> THEN [st EXCEPT !.ph = "bad"]
                           ELSE [st EXCEPT !.k = @ + 1, !.o = 1, !.wide = parts[st.k + 1][1] % 2]
                      ELSE [st EXCEPT !.k = @ + 1, !.o = 0]
              [] rest > 0 /\ st.ph = "head" ->
                 LET fl == p[st.o + 3]
                     rich == Bit(fl, 3)
                     phon == Bit(fl, 2)
                     o1 == st.o + 3
                     nr == IF rich = 1 THEN U16(p, o1) ELSE 0
                     o2 == o1 + 2 * rich
                     np == IF phon = 1 THEN I32(p, o2) ELSE 0
                     o3 == o2 + 4 * phon
                     s2 == [st EXCEPT !.ph = "chars", !.o = o3, !.need = U16(p, st.o), !.wide = fl % 2,
                                      !.u = <<>>, !.nr = nr, !.rs = <<>>, !.np = np]
                 IN IF s2.need = 0 THEN AfterChars(s2) ELSE s2
              [] rest > 0 /\ st.ph = "chars" ->
                 LET size == 1 + st.wide
                     n == Min2(st.need, rest \div size)
                     got == IF st.wide = 1 THEN Wide(p, st.o, n) ELSE Narrow(p, st.o, n)
                     s2 == [st EXCEPT !.o = @ + n * size, !.need = @ - n, !.u = @ \o got]
                 IN IF n = 0 THEN [st EXCEPT !.ph = "bad"]
                    ELSE IF s2.need = 0 THEN AfterChars(s2) ELSE s2
              [] rest > 0 /\ st.ph = "runs" ->
                 LET n == Min2(st.nr, rest \div 4)
                     s2 == [st EXCEPT !.o = @ + 4 * n, !.nr = @ - n,
                                      !.rs = @ \o [i \in 1..n |-> <<U16(p, st.o + 4 * (i - 1)), U16(p, st.o + 4 * (i - 1) + 2)>>]]
                 IN IF n = 0 THEN [st EXCEPT !.ph = "bad"]
                    ELSE IF s2.nr = 0 THEN AfterRuns(s2) ELSE s2
              [] rest > 0 /\ st.ph = "phon" ->
                 LET n == Min2(st.np, rest)
                     s2 == [st EXCEPT !.o = @ + n, !.np = @ - n]
                 IN IF s2.np = 0 THEN Finish(s2) ELSE s2

RECURSIVE RunText(_, _)
RunText(st, parts) == IF st.ph \in {"done", "bad"} THEN st ELSE RunText(StepText(st, parts), parts)

\* characters only (a STRING record after its count, a text-object text):
\* every part begins with an option byte
Chars(parts, n) ==
    IF n = 0 THEN <<>>
    ELSE RunText([Start(1, 0) EXCEPT !.ph = "chars", !.need = n, !.k = 1, !.o = 1,
                                     !.wide = parts[1][1] % 2], parts).out[1].u
=============================================================================
