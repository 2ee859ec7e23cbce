---------------------------- MODULE NameFormula ----------------------------
(* What the formula of a defined name denotes.  A formula is a list of tokens
   in postfix order.  Two folds over it: one for the kind and value of the
   result, one for its text.

   A value is <<kind, tag, number, sequence, references>>:
     tag "none"  nothing is known about the value (it depends on cells)
         "num"   number in 64ths; also truth values and error codes (plain)
         "raw"   another number, by the 16-bit words of its representation
         "str"   text, as UTF-16 units
         "refs"  references, 12 numbers each
         "any"   this specification does not say
   An operand is the set of the values a reader may show for it.            *)
EXTENDS CellNames, FuncDefs

UNK == 0  STRG == 1  NUM == 2  BOOL == 3  ERR == 4  MSNG == 5  REF == 0 - 1  REL == 0 - 2
V(k, tag, n, s, r) == <<k, tag, n, s, r>>
NoV(k) == V(k, "none", 0, <<>>, <<>>)
AnyV(k) == V(k, "any", 0, <<>>, <<>>)
NumV(n) == V(NUM, "num", n, <<>>, <<>>)
BoolV(b) == V(BOOL, "num", IF b THEN 1 ELSE 0, <<>>, <<>>)
ErrV(c) == V(ERR, "num", c, <<>>, <<>>)
StrV(u) == V(STRG, "str", 0, u, <<>>)
RefsV(k, l) == V(k, "refs", 0, <<>>, l)
NullErr == 0  DivErr == 7  NumErr == 36

(* ---- constants --------------------------------------------------------- *)
SC == 64
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Small(n) == Abs(n) < 4000000
(* division that goes back exactly, or not at all                           *)
Exact(a, b) == LET q == Abs(a) \div Abs(b) IN q * Abs(b) = Abs(a)
Quo(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q
Mul(a, b) == IF Abs(a) < 30000 /\ Abs(b) < 30000 /\ ((Abs(a) * Abs(b)) % SC) = 0
             THEN NumV(Quo(a * b, SC)) ELSE AnyV(NUM)
Add(a, b) == IF Small(a) /\ Small(b) THEN NumV(a + b) ELSE AnyV(NUM)
Div(a, b) == IF b = 0 THEN ErrV(DivErr)
             ELSE IF Small(a) /\ Exact(a * SC, b) THEN NumV(Quo(a * SC, b)) ELSE AnyV(NUM)
RECURSIVE PowN(_, _)
PowN(a, e) == IF e = 0 THEN NumV(SC) ELSE LET r == PowN(a, e - 1) IN IF r[2] # "num" THEN r ELSE Mul(r[3], a)
Pow(a, b) == IF a = 0 /\ b = 0 THEN ErrV(NumErr)
             ELSE IF a = 0 /\ b < 0 THEN ErrV(DivErr)
             ELSE IF (b % SC) # 0 THEN IF a < 0 THEN ErrV(NumErr) ELSE AnyV(NUM)
             ELSE LET e == Quo(b, SC)
                      p == IF Abs(e) > 12 THEN AnyV(NUM) ELSE PowN(a, Abs(e))
                  IN IF e >= 0 \/ p[2] # "num" THEN p
                     ELSE IF p[3] = 0 THEN AnyV(NUM) ELSE Div(SC, p[3])
(* a number as text: 64ths have at most six decimals                        *)
RECURSIVE Strip0(_)
Strip0(u) == IF u # <<>> /\ u[Len(u)] = 48 THEN Strip0(Take(u, Len(u) - 1)) ELSE u
Pad6(u) == Rep(48, 6 - Len(u)) \o u
NumText(n) == LET w == Abs(n) \div SC
                  f == (Abs(n) % SC) * 15625
              IN (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(w) \o
                 (IF f = 0 THEN <<>> ELSE <<46>> \o Strip0(Pad6(Dec(f))))
(* text that is a plain number: [-]digits[.digits]; others may mean a number
   too (a date, a percentage, ...), so nothing is said about those          *)
Digits(u) == u # <<>> /\ \A i \in DOMAIN u : Digit(u[i])
RECURSIVE DecVal(_)
DecVal(u) == IF u = <<>> THEN 0 ELSE 10 * DecVal(Take(u, Len(u) - 1)) + (u[Len(u)] - 48)
StrNum(u) == LET neg == u # <<>> /\ u[1] = 45
                 d == IF neg THEN Tail(u) ELSE u
             IN IF Digits(d) /\ Len(d) <= 5 THEN <<"num", (IF neg THEN 0 - DecVal(d) ELSE DecVal(d)) * SC>>
                ELSE IF \E i \in DOMAIN u : Digit(u[i]) THEN <<"maybe", 0>> ELSE <<"no", 0>>
Lower(u) == [i \in DOMAIN u |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]]
Plain(u) == \A i \in DOMAIN u : Digit(u[i]) \/ Letter(u[i])
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
NoText(u) == StrNum(u)[1] = "no"

(* ---- operators --------------------------------------------------------- *)
Arith == 3..7
Concat == 8
Compare == 9..14
ResultKind(o) == IF o \in Arith THEN NUM ELSE IF o = Concat THEN STRG ELSE BOOL
Cmp(o, lt, eq) == CASE o = 9 -> lt [] o = 10 -> lt \/ eq [] o = 11 -> eq
                    [] o = 12 -> ~lt [] o = 13 -> ~lt /\ ~eq [] OTHER -> ~eq
Consts == {NUM, STRG, BOOL}
(* order of the kinds in a comparison: numbers, texts, truth values         *)
Order(k) == IF k = NUM THEN 1 ELSE IF k = STRG THEN 2 ELSE 3
BinConst(o, a, b) ==
    IF o \in Arith
    THEN LET num(v) == IF v[1] = BOOL /\ v[2] = "num" THEN <<"num", v[3] * SC>>
                       ELSE IF v[1] = STRG /\ v[2] = "str" THEN StrNum(v[4]) ELSE <<v[2], v[3]>>
             x == num(a)
             y == num(b)
         IN IF x[1] = "no" \/ y[1] = "no" THEN {NoV(NUM), ErrV(15)}
            ELSE IF x[1] # "num" \/ y[1] # "num" THEN {AnyV(NUM), NoV(NUM), AnyV(ERR)}
            ELSE LET r == CASE o = 3 -> Add(x[2], y[2]) [] o = 4 -> Add(x[2], 0 - y[2])
                            [] o = 5 -> Mul(x[2], y[2]) [] o = 6 -> Div(x[2], y[2]) [] OTHER -> Pow(x[2], y[2])
                 IN IF r[2] = "any" /\ o = 7 THEN {r, AnyV(ERR)} ELSE {r}
    ELSE IF o = Concat
    THEN LET txt(v) == IF v[1] = STRG THEN v[4]
                       ELSE IF v[1] = BOOL THEN IF v[3] = 1 THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>
                       ELSE NumText(v[3])
         IN IF a[2] \in {"raw", "any"} \/ b[2] \in {"raw", "any"} THEN {AnyV(STRG)}
            ELSE {StrV(txt(a) \o txt(b))}
    ELSE IF a[1] # b[1] THEN {BoolV(Cmp(o, Order(a[1]) < Order(b[1]), FALSE))}
    ELSE IF a[2] \in {"raw", "any"} \/ b[2] \in {"raw", "any"} THEN {AnyV(BOOL)}
    ELSE IF a[1] = STRG THEN IF Plain(a[4]) /\ Plain(b[4])
                             THEN LET x == Lower(a[4])
                                      y == Lower(b[4])
                                  IN {BoolV(Cmp(o, Less(x, y), x = y))}
                             ELSE {AnyV(BOOL)}
    ELSE {BoolV(Cmp(o, a[3] < b[3], a[3] = b[3]))}
Known(v) == v[1] \in Consts /\ v[2] # "none"
(* truth values and errors need not be carried through                      *)
Bin1(o, a, b) ==
    LET rk == ResultKind(o) IN
    (IF Known(a) /\ Known(b) /\ BOOL \notin {a[1], b[1]} THEN {} ELSE {NoV(rk)})
    \cup (IF Known(a) /\ Known(b) THEN BinConst(o, a, b) ELSE {})
    \cup (IF a[1] = ERR THEN {a} ELSE IF b[1] = ERR THEN {b} ELSE {})
    \cup (IF UNK \in {a[1], b[1]} THEN {NoV(UNK)} ELSE {})
Un1(o, a) ==
    IF a[1] = ERR THEN {a}
    ELSE IF ~Known(a) THEN {NoV(NUM)} \cup (IF o = 18 THEN {NoV(a[1])} ELSE {}) \cup (IF a[1] = UNK THEN {NoV(UNK)} ELSE {})
    ELSE IF o = 18 THEN {a}
    ELSE IF o = 19 THEN BinConst(5, NumV(0 - SC), a)
    ELSE BinConst(6, a, NumV(100 * SC))
(* references: <<slo, shi, rlo, rhi, clo, chi>> and the six flags           *)
Flags(r) == SubSeq(r, 7, 12)
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Box(f(_, _), g(_, _), a, b) == [i \in 1..6 |-> IF i % 2 = 1 THEN f(a[i], b[i]) ELSE g(a[i], b[i])]
Empty(c) == c[1] >= c[2] \/ c[3] >= c[4] \/ c[5] >= c[6]
(* the two corners are relative in the same way                             *)
Uniform(r) == r[7] = r[8] /\ r[9] = r[10] /\ r[11] = r[12]
SameSheets(a, b) == a[1] = b[1] /\ a[2] = b[2]
IsRef(v) == v[1] \in {REF, REL}
Both(a, b) == IF a[1] = REL \/ b[1] = REL THEN REL ELSE REF
RefOp1(o, a, b) ==
    IF ERR \in {a[1], b[1]} THEN {NoV(ERR)} \cup (IF a[1] = ERR THEN {a} ELSE {b})
    ELSE IF ~IsRef(a) \/ ~IsRef(b) THEN {NoV(REF), NoV(REL), NoV(UNK), NoV(ERR), AnyV(ERR)}
    ELSE IF a[2] = "any" \/ b[2] = "any" THEN {AnyV(REF), AnyV(REL), NoV(REF), NoV(REL), NoV(UNK), AnyV(ERR)}
    ELSE IF a[2] = "none" \/ b[2] = "none" THEN {NoV(Both(a, b))} \cup (IF a[1] # b[1] THEN {NoV(REF), NoV(UNK)} ELSE {})
    ELSE IF o = "list" THEN {RefsV(Both(a, b), a[5] \o b[5])}
    ELSE IF a[1] # b[1] THEN {NoV(REF), NoV(REL), NoV(UNK)}
    ELSE IF Len(a[5]) # 1 \/ Len(b[5]) # 1 THEN {NoV(a[1]), NoV(UNK)}
    ELSE LET x == a[5][1]
             y == b[5][1]
             c == IF o = "range" THEN Box(Mn, Mx, x, y) ELSE Box(Mx, Mn, x, y)
         IN IF ~SameSheets(x, y) THEN {AnyV(a[1]), NoV(a[1]), AnyV(ERR)}
            ELSE IF Flags(x) # Flags(y) THEN {NoV(a[1])}
            ELSE IF ~Uniform(x) THEN {AnyV(a[1]), NoV(a[1]), AnyV(ERR)}
            ELSE IF Empty(c) THEN IF a[1] = REF THEN {ErrV(NullErr)} ELSE {NoV(REL), ErrV(NullErr)}
            ELSE {RefsV(a[1], <<c \o Flags(x)>>)}
(* more than one area where one is needed: evaluation may be given up       *)
Awkward(o, a, b) == o # "list" /\ IsRef(a) /\ IsRef(b) /\ (Len(a[5]) > 1 \/ Len(b[5]) > 1 \/ "any" \in {a[2], b[2]})
Cross(f(_, _), A, B) == UNION {UNION {f(a, b) : b \in B} : a \in A}

(* ---- functions ---------------------------------------------------------- *)
Missing(v) == IF v[1] = MSNG THEN NumV(0) ELSE v
(* args: the operands' sets                                                 *)
IfValue(args) ==
    UNION {IF t[1] \in {NUM, BOOL} /\ t[2] = "num"
           THEN LET n == IF t[1] = NUM THEN t[3] ELSE t[3] * SC
                    yes == {Missing(v) : v \in args[2]}
                    no == IF Len(args) = 2 THEN {BoolV(FALSE)} ELSE {Missing(v) : v \in args[3]}
                IN IF n = 0 THEN no ELSE IF n = SC THEN yes ELSE yes \cup {NoV(UNK)}
           ELSE IF t[2] \in {"any", "raw"} \/ t[1] \in {STRG, BOOL} THEN {AnyV(k) : k \in {NUM, BOOL, STRG, ERR, UNK, REF, REL}}
           ELSE {NoV(UNK)} \cup (IF t[1] = ERR THEN {t} ELSE {}) : t \in args[1]}
ChooseValue(args) ==
    UNION {IF t[1] = NUM /\ t[2] = "num"
           THEN LET n == IF t[3] < 0 THEN 0 ELSE t[3] \div SC
                IN IF n \in 1..(Len(args) - 1) THEN {Missing(v) : v \in args[n + 1]} ELSE {NoV(UNK), ErrV(15)}
           ELSE IF t[2] \in {"any", "raw"} \/ t[1] \in {STRG, BOOL} THEN {AnyV(k) : k \in {NUM, BOOL, STRG, ERR, UNK, REF, REL}}
           ELSE {NoV(UNK)} \cup (IF t[1] = ERR THEN {t} ELSE {}) : t \in args[1]}

(* ---- sheets a reference names ------------------------------------------- *)
(* W: [ver, map (physical sheet -> worksheet or -1), names, sup, refs]; the
   answer is <<first, last>> or <<code>>                                    *)
Sheets(W, t) ==
    LET within(f, l) == IF ~(0 <= f /\ f <= l /\ l < Len(W.map)) THEN <<0 - 102>>
                        ELSE LET a == W.map[f + 1]
                                 b == W.map[l + 1]
                             IN IF 0 <= a /\ a <= b THEN <<a, b>> ELSE <<0 - 3>>
    IN IF W.ver >= 80
       THEN IF t.x + 1 \notin DOMAIN W.refs THEN <<0 - 101>>
            ELSE LET r == W.refs[t.x + 1]
                     k == IF r[1] + 1 \in DOMAIN W.sup THEN W.sup[r[1] + 1] ELSE "ext"
                 IN IF k = "addin" THEN <<0 - 5>> ELSE IF k # "own" THEN <<0 - 4>>
                    ELSE IF r[2] = 65534 /\ r[3] = 65534 THEN <<0 - 1>>
                    ELSE IF r[2] = 65535 /\ r[3] = 65535 THEN <<0 - 2>>
                    ELSE within(r[2], r[3])
       ELSE IF t.x > 0 THEN <<0 - 4>>
            ELSE IF t.f = 0 - 1 /\ t.l = 0 - 1 THEN <<0 - 2>> ELSE within(t.f, t.l)
(* a name token that leads to a name of this workbook                       *)
OwnName(W, t) == t.t = "name" \/
    (t.t = "namex" /\ IF W.ver >= 80 THEN LET s == Sheets(W, t) IN Len(s) = 2 \/ s[1] = 0 - 1
                      ELSE t.x < 0 /\ (0 - t.x) \in DOMAIN W.ext /\ W.ext[0 - t.x].t = 4)

(* ---- value -------------------------------------------------------------- *)
(* st: operands; ok: FALSE once evaluation cannot go on; b: it may be given
   up; e: something in it could not be resolved                             *)
VStart == [st |-> <<>>, ok |-> TRUE, b |-> FALSE, e |-> FALSE]
Broken(m) == [m EXCEPT !.ok = FALSE]
Pop(m, n) == Take(m.st, Len(m.st) - n)
Top(m, n) == SubSeq(m.st, Len(m.st) - n + 1, Len(m.st))
Push(m, n, s) == IF Len(m.st) < n THEN Broken(m) ELSE [m EXCEPT !.st = Pop(m, n) \o <<s>>]
B01(x) == IF x THEN 1 ELSE 0
RefToken(W, m, t) ==
    LET s == Sheets(W, t)
        rel == t.rr1 + t.rr2 + t.cr1 + t.cr2 > 0
        k == IF rel THEN REL ELSE REF
    IN IF Len(s) = 1 THEN [Push(m, 0, {AnyV(REF), AnyV(REL), NoV(REF), NoV(REL), NoV(UNK), NoV(ERR), AnyV(ERR)}) EXCEPT !.b = TRUE, !.e = TRUE]
       ELSE IF t.cls # 1 THEN Push(m, 0, {NoV(k)})
       ELSE Push(m, 0, {RefsV(k, << <<s[1], s[2] + 1, t.r1, t.r2 + 1, t.c1, t.c2 + 1, 0, 0, t.rr1, t.rr2, t.cr1, t.cr2>> >>)})
(* res: what is known of the other names                                    *)
VStep(W, res, m, t) ==
    IF ~m.ok THEN m ELSE
    CASE t.t = "int" -> Push(m, 0, {NumV(t.n * SC)})
      [] t.t = "num" -> Push(m, 0, {NumV(t.n)})
      [] t.t = "raw" -> Push(m, 0, {V(NUM, "raw", 0, t.w, <<>>)})
      [] t.t = "str" -> Push(m, 0, {StrV(t.u)})
      [] t.t = "bool" -> Push(m, 0, {BoolV(t.n = 1)})
      [] t.t = "err" -> Push(m, 0, {ErrV(t.n)})
      [] t.t = "miss" -> Push(m, 0, {NoV(MSNG)})
      [] t.t = "bin" -> IF Len(m.st) < 2 THEN Broken(m)
                        ELSE LET ab == Top(m, 2) IN Push(m, 2, Cross(LAMBDA a, b : Bin1(t.o, a, b), ab[1], ab[2]))
      [] t.t = "un" -> IF m.st = <<>> THEN Broken(m) ELSE Push(m, 1, UNION {Un1(t.o, a) : a \in Top(m, 1)[1]})
      [] t.t \in {"list", "isect", "range"} ->
             IF Len(m.st) < 2 THEN Broken(m)
             ELSE LET ab == Top(m, 2)
                      m2 == Push(m, 2, Cross(LAMBDA a, b : RefOp1(t.t, a, b), ab[1], ab[2]))
                  IN [m2 EXCEPT !.b = @ \/ \E a \in ab[1], b \in ab[2] : Awkward(t.t, a, b)]
      [] t.t \in {"paren", "attr", "memfunc"} -> m
      [] t.t = "sum" -> Push(m, 1, {NoV(NUM)})
      [] t.t = "ref" -> IF t.cls # 1 THEN Push(m, 0, {NoV(UNK), NoV(REL)})
                        ELSE Push(m, 0, {RefsV(REL, << <<0, 1, t.r1, t.r2 + 1, t.c1, t.c2 + 1, 1, 1, t.rr1, t.rr2, t.cr1, t.cr2>> >>)})
      [] t.t = "ref3d" -> RefToken(W, m, t)
      [] t.t \in {"name", "namex"} ->
             IF ~OwnName(W, t) THEN [Push(m, 0, {NoV(UNK)}) EXCEPT !.b = TRUE, !.e = TRUE]
             ELSE IF t.i \notin DOMAIN res THEN Broken(m)
             ELSE LET r == res[t.i] IN
                  IF ~r.ok THEN [Push(m, 0, {NoV(UNK)}) EXCEPT !.b = TRUE, !.e = TRUE]
                  ELSE [Push(m, 0, r.v \cup (IF r.e \/ r.b THEN {NoV(UNK)} ELSE {})) EXCEPT !.b = @ \/ r.e \/ r.b, !.e = @ \/ r.e]
      [] t.t = "func" -> IF ~FuncKnown(t.f) THEN [Push(m, 0, {NoV(UNK)}) EXCEPT !.b = TRUE, !.e = TRUE]
                         ELSE Push(m, FuncMin(t.f), {NoV(UNK)})
      [] t.t = "funcvar" ->
             IF ~FuncKnown(t.f) THEN [Push(m, 0, {NoV(UNK)}) EXCEPT !.b = TRUE, !.e = TRUE]
             ELSE IF t.n \notin FuncMin(t.f)..FuncMax(t.f) \/ Len(m.st) < t.n THEN Broken(m)
             ELSE Push(m, t.n, IF t.f = 1 THEN IfValue(Top(m, t.n)) ELSE IF t.f = 100 THEN ChooseValue(Top(m, t.n)) ELSE {NoV(UNK)})
      [] t.t = "array" -> Push(m, 0, {NoV(UNK)})
      [] t.t = "errref" -> [Push(m, 0, {NoV(ERR), ErrV(23), NoV(UNK)}) EXCEPT !.b = TRUE, !.e = TRUE]
      [] OTHER -> Broken(m)
Value(W, res, toks) ==
    LET RECURSIVE go(_, _)
        go(m, i) == IF i > Len(toks) THEN m ELSE go(VStep(W, res, m, toks[i]), i + 1)
        m == go(VStart, 1)
    IN IF toks = <<>> THEN [ok |-> TRUE, v |-> {NoV(UNK)}, b |-> TRUE, e |-> FALSE]
       ELSE IF m.ok /\ Len(m.st) = 1 THEN [ok |-> TRUE, v |-> m.st[1], b |-> m.b, e |-> m.e]
       ELSE [ok |-> FALSE, v |-> {NoV(UNK)}, b |-> TRUE, e |-> TRUE]

(* ---- text ---------------------------------------------------------------- *)
(* precedence, weakest first: comparison, &, + -, * /, ^, %, sign, then the
   reference operators union, intersection and range                        *)
Rank(t) == CASE t.t = "un" -> IF t.o = 20 THEN 60 ELSE 70
             [] t.t = "list" -> 80 [] t.t = "isect" -> 81 [] t.t = "range" -> 82
             [] t.o \in Compare -> 10 [] t.o = Concat -> 20 [] t.o \in {3, 4} -> 30
             [] t.o \in {5, 6} -> 40 [] OTHER -> 50
Leaf == 90
Symbol(t) == CASE t.t = "list" -> <<44>> [] t.t = "isect" -> <<32>> [] t.t = "range" -> <<58>>
               [] OTHER -> << <<43>>, <<45>>, <<42>>, <<47>>, <<94>>, <<38>>, <<60>>, <<60, 61>>, <<61>>,
                              <<62, 61>>, <<62>>, <<60, 62>> >>[t.o - 2]
(* operands: [x: possible texts, free: not said, r: rank]                   *)
X(s, r) == [x |-> s, free |-> FALSE, r |-> r]
Free == [x |-> {}, free |-> TRUE, r |-> Leaf]
In(o, need) == IF need THEN {<<40>> \o u \o <<41>> : u \in o.x} ELSE o.x
(* operators of equal rank are read from the left                           *)
BinText(t, a, b) ==
    IF a.free \/ b.free THEN [Free EXCEPT !.r = Rank(t)]
    ELSE X({p \o Symbol(t) \o q : p \in In(a, a.r < Rank(t)), q \in In(b, b.r <= Rank(t))}, Rank(t))
UnText(t, a) ==
    IF a.free THEN [Free EXCEPT !.r = Rank(t)]
    ELSE X({IF t.o = 20 THEN p \o <<37>> ELSE (IF t.o = 19 THEN <<45>> ELSE <<43>>) \o p : p \in In(a, a.r < Rank(t))}, Rank(t))
RECURSIVE Joined(_)
Joined(args) == IF args = <<>> THEN {<<>>}
                ELSE LET first == In(args[1], args[1].r = 80)
                     IN IF Len(args) = 1 THEN first
                        ELSE {p \o <<44>> \o q : p \in first, q \in Joined(Tail(args))}
Call(name, args) == IF \E i \in DOMAIN args : args[i].free THEN Free
                    ELSE X({name \o <<40>> \o q \o <<41>> : q \in Joined(args)}, Leaf)
StrText(u) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(u) THEN <<>> ELSE (IF u[i] = 34 THEN <<34, 34>> ELSE <<u[i]>>) \o go(i + 1)
              IN <<34>> \o go(1) \o <<34>>
ErrorText(c) == CASE c = 0 -> <<35, 78, 85, 76, 76, 33>> [] c = 7 -> <<35, 68, 73, 86, 47, 48, 33>>
                  [] c = 15 -> <<35, 86, 65, 76, 85, 69, 33>> [] c = 23 -> <<35, 82, 69, 70, 33>>
                  [] c = 29 -> <<35, 78, 65, 77, 69, 63>> [] c = 36 -> <<35, 78, 85, 77, 33>>
                  [] OTHER -> <<35, 78, 47, 65>>
(* how: [deco: shown by the decompiler, br, bc: its base cell or -1, r1c1,
   ar: absolute references with a sheet are shown in R1C1 style too]         *)
CellsText(how, t) ==
    IF t.one THEN CellRel(t.r1, t.c1, t.rr1 = 1, t.cr1 = 1, how.br, how.bc, how.r1c1)
    ELSE RangeRel(<<t.r1, t.r2 + 1, t.c1, t.c2 + 1>>, <<t.rr1 = 1, t.rr2 = 1, t.cr1 = 1, t.cr2 = 1>>, how.br, how.bc, how.r1c1)
Ref3dText(W, how, t) ==
    LET s == Sheets(W, t)
        q == <<s[1], s[2] + 1, t.r1, t.r2 + 1, t.c1, t.c2 + 1>>
        f == <<FALSE, FALSE, t.rr1 = 1, t.rr2 = 1, t.cr1 = 1, t.cr2 = 1>>
    IN IF Len(s) = 1 THEN Free
       ELSE IF f = [i \in 1..6 |-> FALSE]
            THEN X({p \o <<33>> \o RangeAbs(SubSeq(q, 3, 6), how.ar) : p \in SheetRange(W.names, q[1], q[2])}, Leaf)
            ELSE X(IF how.deco THEN Range3dRel(W.names, q, f, how.br, how.bc, how.r1c1)
                   ELSE Range3dRel(W.names, q, f, 0 - 1, 0 - 1, TRUE), Leaf)
(* nm: for every name its text and scope                                    *)
(* a function of an add-in is decompiled as its name, quoted               *)
NameText(W, how, t, nm) ==
    IF t.t = "namex" /\ W.ver >= 80 /\ Sheets(W, t) = <<0 - 5>> /\ how.deco /\ t.i \in DOMAIN W.addin THEN X({StrText(W.addin[t.i])}, Leaf)
    ELSE IF ~OwnName(W, t) \/ t.i \notin DOMAIN nm THEN Free
    ELSE LET n == nm[t.i] IN
         IF n.scope = 0 - 1 THEN X({n.text}, Leaf)
         ELSE IF n.scope < 0 THEN Free
         ELSE X({p \o <<33>> \o n.text : p \in Shown(W.names[n.scope + 1])}, Leaf)
TStep(W, nm, how, m, t) ==
    IF ~m.ok THEN m ELSE
    CASE t.t \in {"int", "num", "raw"} -> Push(m, 0, X({t.tx}, Leaf))
      [] t.t = "str" -> Push(m, 0, X({StrText(t.u)}, Leaf))
      [] t.t = "bool" -> Push(m, 0, X({IF t.n = 1 THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>}, Leaf))
      [] t.t = "err" -> Push(m, 0, X({ErrorText(t.n)}, Leaf))
      [] t.t = "miss" -> Push(m, 0, X({<<>>}, Leaf))
      [] t.t \in {"bin", "list", "isect", "range"} ->
             IF Len(m.st) < 2 THEN Broken(m) ELSE Push(m, 2, BinText(t, Top(m, 2)[1], Top(m, 2)[2]))
      [] t.t = "un" -> IF m.st = <<>> THEN Broken(m) ELSE Push(m, 1, UnText(t, Top(m, 1)[1]))
      [] t.t \in {"paren", "attr", "memfunc"} -> m
      [] t.t = "sum" -> IF m.st = <<>> THEN Broken(m) ELSE Push(m, 1, Call(<<83, 85, 77>>, Top(m, 1)))
      [] t.t = "ref" -> Push(m, 0, IF how.deco THEN X({CellsText(how, t)}, Leaf) ELSE Free)
      [] t.t = "ref3d" -> Push(m, 0, Ref3dText(W, how, t))
      [] t.t \in {"name", "namex"} -> Push(m, 0, NameText(W, how, t, nm))
      [] t.t = "func" -> IF ~FuncKnown(t.f) THEN Push(m, 0, Free)
                         ELSE IF Len(m.st) < FuncMin(t.f) THEN Broken(m)
                         ELSE Push(m, FuncMin(t.f), Call(FuncName(t.f), Top(m, FuncMin(t.f))))
      [] t.t = "funcvar" ->
             IF ~FuncKnown(t.f) THEN Push(m, 0, Free)
             ELSE IF t.n \notin FuncMin(t.f)..FuncMax(t.f) \/ Len(m.st) < t.n THEN Broken(m)
             ELSE Push(m, t.n, Call(FuncName(t.f), Top(m, t.n)))
      [] t.t \in {"errref", "array"} -> Push(m, 0, Free)
      [] OTHER -> Broken(m)
Text(W, nm, how, toks) ==
    LET RECURSIVE go(_, _)
        go(m, i) == IF i > Len(toks) THEN m ELSE go(TStep(W, nm, how, m, toks[i]), i + 1)
        m == go(VStart, 1)
    IN IF toks = <<>> THEN [ok |-> TRUE] @@ Free
       ELSE IF m.ok /\ Len(m.st) = 1 THEN [ok |-> TRUE] @@ m.st[1] ELSE [ok |-> FALSE] @@ Free
Eval == [deco |-> FALSE, br |-> 0 - 1, bc |-> 0 - 1, r1c1 |-> FALSE, ar |-> FALSE]

(* ---- judging what was shown ---------------------------------------------- *)
(* ob: "none" or [k, v (tagged value), x]                                   *)
Fits(a, k, v) == a[1] = k /\ (a[2] = "any" \/ Same(SubSeq(a, 2, 5), v))
ShowsResult(ob, val, txt) ==
    IF Same(ob, "none") THEN IF val.b \/ ~val.ok THEN <<>> ELSE <<"not_evaluated">>
    ELSE Failing(<< <<"kind", \E a \in val.v : a[1] = ob.k>>,
                    <<"value", (\E a \in val.v : a[1] = ob.k) => \E a \in val.v : Fits(a, ob.k, ob.v)>>,
                    <<"text", txt.free \/ \E u \in txt.x : Same(u, ob.x)>> >>)
=============================================================================
