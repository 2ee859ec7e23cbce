-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 doubles as four 16-bit limbs <<w3, w2, w1, w0>> (w3 holds sign and
   exponent), and the packed 30-bit "RK" encoding, with exactly rounded
   division by 100 done bit by bit.                                         *)
EXTENDS Common

Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex4(w) == Hex[(w \div 4096) + 1] \o Hex[((w \div 256) % 16) + 1] \o Hex[((w \div 16) % 16) + 1] \o Hex[(w % 16) + 1]
\* the token under which a double crosses the JSON boundary
Tok(l) == "F" \o Hex4(l[1]) \o Hex4(l[2]) \o Hex4(l[3]) \o Hex4(l[4])

RECURSIVE BitsOf(_, _)      \* n lowest bits of x, most significant first
BitsOf(x, n) == IF n = 0 THEN <<>> ELSE Append(BitsOf(x \div 2, n - 1), x % 2)
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE 2 * Num(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE Width(_)
Width(x) == IF x = 0 THEN 0 ELSE 1 + Width(x \div 2)

\* frac: the 52 fraction bits
Pack(sign, bexp, frac) ==
    <<sign * 32768 + bexp * 16 + Num(SubSeq(frac, 1, 4)), Num(SubSeq(frac, 5, 20)),
      Num(SubSeq(frac, 21, 36)), Num(SubSeq(frac, 37, 52))>>
Zero(sign) == <<sign * 32768, 0, 0, 0>>
Inf(sign) == <<sign * 32768 + 32752, 0, 0, 0>>

\* an integer, |n| < 2^31
OfInt(n) ==
    IF n = 0 THEN Zero(0)
    ELSE LET a == IF n < 0 THEN -n ELSE n
             w == Width(a)
             b == BitsOf(a, w)
         IN Pack(IF n < 0 THEN 1 ELSE 0, 1023 + w - 1, SubSeq(b, 2, w) \o Rep(0, 52 - (w - 1)))

RECURSIVE Inc(_)   \* binary increment of a bit string; may grow by one bit
Inc(b) == IF b = <<>> THEN <<1>>
          ELSE IF b[Len(b)] = 0 THEN Append(SubSeq(b, 1, Len(b) - 1), 1)
          ELSE Append(Inc(SubSeq(b, 1, Len(b) - 1)), 0)

\* (-1)^sign * m * 2^e / 100, correctly rounded (normal results only)
Div100(sign, m, e) ==
    LET q0 == m \div 100
        r0 == m % 100
        w0 == Width(q0)
        \* <<significant bits so far, remainder, weight exponent of last bit>>
        RECURSIVE go(_, _, _)
        go(b, r, x) == IF Len(b) = 53 THEN <<b, r, x>>
                       ELSE LET d == (2 * r) \div 100
                            IN go(IF b = <<>> /\ d = 0 THEN <<>> ELSE Append(b, d), (2 * r) % 100, x - 1)
        g == go(BitsOf(q0, w0), r0, e)
        nxt == (2 * g[2]) \div 100
        rest == (2 * g[2]) % 100
        up == nxt = 1 /\ (rest > 0 \/ g[1][53] = 1)
        b1 == IF up THEN Inc(g[1]) ELSE g[1]
        grew == Len(b1) = 54
        b2 == IF grew THEN SubSeq(b1, 1, 53) ELSE b1
        topexp == g[3] + 52 + (IF grew THEN 1 ELSE 0)
    IN Pack(sign, 1023 + topexp, SubSeq(b2, 2, 53))

\* RK: 16-bit halves of the 32-bit field
Rk(hi, lo) ==
    LET isint == (lo \div 2) % 2 = 1
        div == lo % 2 = 1
    IN IF isint
       THEN LET u == hi * 16384 + lo \div 4
                n == IF hi >= 32768 THEN u - 1073741824 ELSE u
            IN IF ~div THEN OfInt(n)
               ELSE IF n = 0 THEN Zero(0)
               ELSE Div100(IF n < 0 THEN 1 ELSE 0, IF n < 0 THEN -n ELSE n, 0)
       ELSE LET l == <<hi, (lo \div 4) * 4, 0, 0>>
                sign == hi \div 32768
                bexp == (hi \div 16) % 2048
                fr == (hi % 16) * 65536 + l[2]          \* 20 top fraction bits
            IN IF ~div THEN l
               ELSE IF bexp = 0 /\ fr = 0 THEN Zero(sign)
               ELSE IF bexp = 2047 THEN l              \* infinities stay infinite
               ELSE Div100(sign, 1048576 + fr, bexp - 1023 - 20)
=============================================================================
