--------------------------- MODULE NameFormulaMC ---------------------------
(* The text rule of the specification, checked against the grammar it is for:
   reading the text of a formula by precedence, from the left, gives the
   formula back, and without any one pair of its parentheses it would not.
   Every formula of the explored shapes is printed, for replay.             *)
EXTENDS NameFormula
CONSTANTS Depth, Few
OpTok(o) == IF o \in 3..14 THEN [t |-> "bin", o |-> o]
            ELSE [t |-> (CASE o = 15 -> "isect" [] o = 16 -> "list" [] OTHER -> "range"), o |-> o]
BinOps == IF Few THEN {4, 7, 10, 15} ELSE 3..17
UnOps == IF Few THEN {19, 20} ELSE 18..20
UnTok(o) == [t |-> "un", o |-> o]
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN {<<"l", 0>>}
            ELSE LET s == Trees(n - 1) IN
                 {<<"l", 0>>} \cup {<<"b", o, a, b>> : o \in BinOps, a \in s, b \in s} \cup {<<"u", o, a>> : o \in UnOps, a \in s}
\* text as a sequence of symbols: "l" leaf, <<"b", o>>, <<"u", o>>, "(" and ")"
TreeRank(t) == CASE t[1] = "l" -> Leaf [] t[1] = "b" -> Rank(OpTok(t[2])) [] OTHER -> Rank(UnTok(t[2]))
L == <<"l", 0>>
Open == <<"p", 1>>
Close == <<"p", 2>>
Wrap(s, need) == IF need THEN <<Open>> \o s \o <<Close>> ELSE s
RECURSIVE Show(_)
Show(t) == CASE t[1] = "l" -> <<L>>
             [] t[1] = "b" -> LET r == TreeRank(t) IN
                              Wrap(Show(t[3]), TreeRank(t[3]) < r) \o << <<"b", t[2]>> >> \o Wrap(Show(t[4]), TreeRank(t[4]) <= r)
             [] OTHER -> LET r == TreeRank(t)
                             s == Wrap(Show(t[3]), TreeRank(t[3]) < r)
                         IN IF t[2] = 20 THEN s \o << <<"b", 20>> >> ELSE << <<"b", IF t[2] = 18 THEN 3 ELSE 4>> >> \o s
\* the reader: <<tree, next position>>; signs are + and - where an operand is due
RankOf(y) == IF y[2] = 20 THEN 60 ELSE Rank(OpTok(y[2]))
Bad == << <<"bad", 0>>, 1000>>
RECURSIVE Read(_, _, _), More(_, _, _, _, _)
\* have: the rank of the left operand t
More(s, t, p, lowest, have) ==
    IF p > Len(s) \/ s[p][1] # "b" \/ RankOf(s[p]) < lowest \/ have < RankOf(s[p]) THEN <<t, p>>
    ELSE IF s[p][2] = 20 THEN More(s, <<"u", 20, t>>, p + 1, lowest, 60)
    ELSE LET r == Read(s, p + 1, RankOf(s[p]) + 1) IN
         IF r[2] >= 1000 THEN Bad ELSE More(s, <<"b", s[p][2], t, r[1]>>, r[2], lowest, RankOf(s[p]))
Read(s, p, lowest) ==
    IF p > Len(s) THEN Bad
    ELSE IF s[p] = L THEN More(s, L, p + 1, lowest, Leaf)
    ELSE IF s[p] = Open THEN LET r == Read(s, p + 1, 0) IN
                             IF r[2] > Len(s) \/ s[r[2]] # Close THEN Bad ELSE More(s, r[1], r[2] + 1, lowest, Leaf)
    ELSE IF s[p] \in {<<"b", 3>>, <<"b", 4>>} /\ lowest <= 70
         THEN LET r == Read(s, p + 1, 70) IN
              IF r[2] >= 1000 THEN Bad ELSE More(s, <<"u", IF s[p][2] = 3 THEN 18 ELSE 19, r[1]>>, r[2], lowest, 70)
    ELSE Bad
Means(s) == LET r == Read(s, 1, 0) IN IF r[2] = Len(s) + 1 THEN r[1] ELSE <<"bad", 0>>
Match(s, i) == LET RECURSIVE go(_, _)
                   go(j, d) == IF s[j] = Close /\ d = 0 THEN j
                               ELSE go(j + 1, d + (IF s[j] = Open THEN 1 ELSE IF s[j] = Close THEN 0 - 1 ELSE 0))
               IN go(i + 1, 0)
Without(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, j - 1) \o SubSeq(s, j + 1, Len(s))
\* the same text by the fold the code is compared with
RECURSIVE Postfix(_)
Postfix(t) == CASE t[1] = "l" -> <<[t |-> "int", n |-> 1, tx |-> <<49>>]>>
                [] t[1] = "b" -> Postfix(t[3]) \o Postfix(t[4]) \o <<OpTok(t[2])>>
                [] OTHER -> Postfix(t[3]) \o <<UnTok(t[2])>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE (CASE s[1] = L -> <<49>> [] s[1] = Open -> <<40>> [] s[1] = Close -> <<41>> [] s[1][2] = 20 -> <<37>>
                   [] OTHER -> Symbol(OpTok(s[1][2]))) \o Flat(Tail(s))
Ops(t) == LET p == Postfix(t) IN [i \in DOMAIN p |-> IF p[i].t = "int" THEN 0 ELSE p[i].o]

VARIABLES tree, said
Init == tree \in Trees(Depth) /\ said = FALSE
Next == ~said /\ said' = TRUE /\ UNCHANGED tree /\ PrintT("S|" \o ToJson(Ops(tree)))
Spec == Init /\ [][Next]_<<tree, said>>
ReadsBack == Means(Show(tree)) = tree
NoneTooMany == LET s == Show(tree) IN \A i \in DOMAIN s : s[i] = Open => Means(Without(s, i, Match(s, i))) # tree
SameText == LET w == [ver |-> 80, map |-> <<>>, names |-> <<>>, sup |-> <<>>, refs |-> <<>>]
            IN Text(w, <<>>, Eval, Postfix(tree)).x = {Flat(Show(tree))}
=============================================================================
