----------------------------- MODULE DateFormat -----------------------------
(* When is a number a date?  A number format is read character by character:
   quoted text, characters escaped by a backslash, underscore or star, and bracketed sections are not
   live; the live date/time codes y m d h s are weighed against the live digit
   placeholders 0 # ?.  A cell's style names a format by key; the key is looked
   up among the workbook's own formats, then among the built-in ones.         *)
EXTENDS Common, FiniteSetsExt

DQ == 34  Backslash == 92  Underscore == 95  Star == 42  LB == 91  RB == 93
DateCodes == {121, 109, 100, 104, 115, 89, 77, 68, 72, 83}
Digits == {48, 35, 63}
ElapsedCodes == {104, 72, 109, 77, 115, 83}

Lex0 == [m |-> "live", d |-> 0, n |-> 0, br |-> <<>>, elapsed |-> FALSE, ill |-> FALSE]
LexStep(l, c) ==
    CASE l.m = "live" ->
            IF c = DQ THEN [l EXCEPT !.m = "quoted"]
            ELSE IF c \in {Backslash, Underscore, Star} THEN [l EXCEPT !.m = "escaped"]
            ELSE IF c = LB THEN [l EXCEPT !.m = "bracket", !.br = <<>>]
            ELSE IF c \in DateCodes THEN [l EXCEPT !.d = l.d + 1]
            ELSE IF c \in Digits THEN [l EXCEPT !.n = l.n + 1]
            ELSE l
      [] l.m = "quoted" -> IF c = DQ THEN [l EXCEPT !.m = "live"] ELSE l
      [] l.m = "escaped" -> [l EXCEPT !.m = "live"]
      [] l.m = "bracket" ->
            IF c = RB THEN [l EXCEPT !.m = "live",
                                     !.elapsed = l.elapsed \/ (l.br # <<>> /\ \A i \in DOMAIN l.br : l.br[i] \in ElapsedCodes)]
            \* brackets hold plain text only
            ELSE [l EXCEPT !.br = Append(l.br, c), !.ill = l.ill \/ c \in {DQ, Backslash, Underscore, Star}]
Lex(u) == FoldLeft(LexStep, Lex0, u)
\* quotes and brackets are closed, nothing dangles
Legal(l) == l.m = "live" /\ ~l.ill
IsDate(l) == l.d > l.n
(* An elapsed-time section such as [h] is a bracket to the letter and a time
   code in spirit; where that would decide, both answers are accepted.        *)
Doubtful(l) == l.elapsed /\ ~IsDate(l)

BuiltinDate(k) == k \in (14..22) \cup (27..36) \cup (45..47) \cup (50..58) \cup (71..81)

\* workbook level: styles and formats accumulate, cells only look them up
Start0 == [keys |-> <<>>, fmts |-> <<>>, styles |-> <<>>]
Apply(st, e, ver) ==
    CASE e.op = "format" -> [st EXCEPT !.keys = Append(st.keys, IF ver >= 50 THEN e.key ELSE Len(st.keys)),
                                       !.fmts = Append(st.fmts, Lex(e.u))]
      [] e.op = "xf" -> [st EXCEPT !.styles = Append(st.styles, e.fmt)]
      [] OTHER -> st
\* the answers allowed for a number with format key k
OfFormat(l) == IF Doubtful(l) THEN {2, 3} ELSE {IF IsDate(l) THEN 3 ELSE 2}
Known(k, ver) == ver >= 50 /\ (k \in 0..22 \cup (27..62) \cup (67..81))
TypesOfKey(st, k, ver) ==
    LET own(x) == {i \in DOMAIN st.keys : st.keys[i] = x} IN
    IF own(k) # {} THEN OfFormat(st.fmts[Max(own(k))])
    ELSE IF Known(k, ver) THEN {IF BuiltinDate(k) THEN 3 ELSE 2}
    \* a key that names nothing stands for the default format 0
    ELSE {2} \cup (IF own(0) # {} THEN OfFormat(st.fmts[Max(own(0))]) ELSE {})
TypesOfCell(st, e, ver) == TypesOfKey(st, IF ver = 20 THEN e.fmt ELSE st.styles[e.xf + 1], ver)
=============================================================================
