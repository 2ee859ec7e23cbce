------------------------------- MODULE Common -------------------------------
(* Helpers shared by every module of the specification.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(* Equality that is total on any two JSON-able values (TLC's own "=" raises
   an error when a buggy implementation logs a value of another type).      *)
Same(a, b) == ToJson(a) = ToJson(b)

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

(* Names of the clauses that do not hold.  cl is a sequence of
   <<name, BOOLEAN>> pairs.                                                 *)
Failing(cl) == LET RECURSIVE go(_)
                   go(i) == IF i > Len(cl) THEN <<>>
                            ELSE IF cl[i][2] THEN go(i + 1)
                            ELSE <<cl[i][1]>> \o go(i + 1)
               IN go(1)

Verdict(i, failing) == PrintT("V|" \o ToString(i) \o "|" \o ToJson(failing))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Bit k (0 = least significant) of a non-negative integer, and bit fields. *)
Bit(x, k) == (x \div Pow2(k)) % 2
Bits(x, k, n) == (x \div Pow2(k)) % Pow2(n)

Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
IsIn(x, s) == \E i \in 1..Len(s) : s[i] = x
SumSeq(s) == LET RECURSIVE go(_)
                 go(i) == IF i > Len(s) THEN 0 ELSE s[i] + go(i + 1)
             IN go(1)
Rep(x, n) == [i \in 1..n |-> x]
=============================================================================
