----------------------------- MODULE TraceNames -----------------------------
(* S: a workbook's names (see harness/nameev.py), S.judge saying which part of
   the behaviour is asked about; O: what was shown.  The names are settled one
   after the other, each after the names its formula refers to.              *)
EXTENDS Names
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, res, done
vars == <<case, res, done>>
S == Cases[case].s
O == Cases[case].o
Fine == ~Cases[case].hang /\ ~Has(O, "err")
Nothing == [ok |-> FALSE, v |-> {NoV(UNK)}, b |-> TRUE, e |-> TRUE]
Skipped(d) == Field(d.fl, "macro") = 1 \/ Field(d.fl, "binary") = 1
All(s) == [i \in DOMAIN s.sheets |-> s.sheets[i].n]
Map(s) == MapOf([i \in DOMAIN s.sheets |-> s.sheets[i].t])
World(s) == [ver |-> s.ver, map |-> Map(s), all |-> All(s), sup |-> s.sup, addin |-> s.addin, refs |-> s.refs, ext |-> s.ext, defs |-> s.defs, dim |-> s.dim,
             names |-> SelectSeq(All(s), LAMBDA n : \E i \in DOMAIN s.sheets : s.sheets[i].n = n /\ s.sheets[i].t = 0)]
W == World(S)
Init == /\ case \in 1..Len(Cases)
        /\ done = IF Fine THEN {i \in DOMAIN S.defs : Skipped(S.defs[i])} ELSE {}
        /\ res = IF Fine THEN [i \in DOMAIN S.defs |-> Nothing] ELSE <<>>
Needs(W0, i) == {S.defs[i].toks[k].i : k \in {j \in DOMAIN S.defs[i].toks : S.defs[i].toks[j].t \in {"name", "namex"} /\ OwnName(W0, S.defs[i].toks[j])}}
            \cap DOMAIN S.defs
Open == IF Fine THEN DOMAIN S.defs \ done ELSE {}
Ready == LET w == W IN {i \in Open : Needs(w, i) \subseteq done}
(* all that can be settled now, at once: they do not need one another        *)
Settle == /\ LET r == Ready
                 w == W
             IN /\ r # {}
                /\ res' = [i \in DOMAIN res |-> IF i \in r THEN Value(w, res, S.defs[i].toks) ELSE res[i]]
                /\ done' = done \cup r
          /\ UNCHANGED case
(* the rest refer to each other or to such names: evaluation may be given up *)
GiveUp == /\ Ready = {} /\ Open # {} /\ Fine
          /\ LET w == W IN res' = [i \in DOMAIN res |-> IF i \in Open THEN [Value(w, res, S.defs[i].toks) EXCEPT !.b = TRUE, !.e = TRUE] ELSE res[i]]
          /\ done' = DOMAIN S.defs
          /\ UNCHANGED case
(* ---- judging ---- *)
Nm == [i \in DOMAIN S.defs |-> [text |-> S.defs[i].shown, scope |-> Scope(W, S.defs[i])]]
Catalogue(i) ==
    LET d == S.defs[i]
        o == O.names[i]
    IN Failing(<< <<"name", Same(o.name, Shows(d))>>,
                  <<"flags", \A f \in FieldNames : Same(o.fl[f], Field(d.fl, f))>>,
                  <<"index", Same(o.i, i - 1)>>,
                  <<"scope", Same(o.scope, Scope(W, d))>>,
                  <<"raw_formula", Same(o.raw, o.want) /\ Same(o.len, Len(o.want))>> >>)
(* what the name is known to denote, else what the reader says it does      *)
Denotes(i) == IF Skipped(S.defs[i]) \/ res[i].b \/ Cardinality(res[i].v) # 1 THEN O.names[i].res
              ELSE LET v == CHOOSE v \in res[i].v : TRUE IN
                   IF v[2] = "any" THEN O.names[i].res ELSE [k |-> v[1], v |-> SubSeq(v, 2, 5)]
Access(i) ==
    LET o == O.names[i]
        w == Denotes(i)
    IN IF Skipped(S.defs[i]) THEN <<>>
       ELSE Failing(<< <<"cell", Same(o.cell, TheCell(W, w))>>,
                       <<"area", Same(o.area, TheArea(W, w, TRUE))>>,
                       <<"area_unclipped", Same(o.areau, TheArea(W, w, FALSE))>> >>)
Result(w, nm, i) == IF Skipped(S.defs[i]) THEN <<>>
             ELSE ShowsResult(O.names[i].res, res[i], Text(w, nm, Eval, S.defs[i].toks))
Deco(w, nm, i) ==
    LET t(ar) == Text(w, nm, [S.deco EXCEPT !.r1c1 = (S.deco.r1c1 = 1)] @@ [deco |-> TRUE, ar |-> ar], S.defs[i].toks)
        fits(x) == ~x.ok \/ x.free \/ \E u \in x.x : Same(u, O.names[i].deco)
    IN IF fits(t(FALSE)) \/ (S.deco.r1c1 = 1 /\ fits(t(TRUE))) THEN <<>> ELSE <<"decompiled_text">>
Lookups ==
    Failing(<< <<"name_map", /\ {O.map[k][1] : k \in DOMAIN O.map} = Keys(W)
                             /\ \A k \in DOMAIN O.map : Same(O.map[k][2], InOrder(W, O.map[k][1]))>>,
               <<"name_and_scope_map", /\ {<<O.ns[k][1], O.ns[k][2]>> : k \in DOMAIN O.ns} =
                                          {<<S.defs[i].low, Scope(W, S.defs[i])>> : i \in DOMAIN S.defs}
                                       /\ \A k \in DOMAIN O.ns : O.ns[k][3] \in At(W, O.ns[k][1], O.ns[k][2])>> >>)
RECURSIVE Collect(_, _)
Collect(f(_), i) == IF i = 0 THEN <<>>
                    ELSE LET c == f(i) IN [k \in DOMAIN c |-> c[k] \o " of name " \o ToString(i)] \o Collect(f, i - 1)
Judge == IF Cases[case].hang THEN <<"hang">> ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE IF Len(O.names) # Len(S.defs) THEN <<"names_listed">>
         ELSE IF S.judge = "names" THEN Lookups \o Collect(LAMBDA i : Catalogue(i) \o Access(i), Len(S.defs))
         ELSE LET w == W
                  nm == Nm
              IN Collect(LAMBDA i : Result(w, nm, i) \o Deco(w, nm, i), Len(S.defs))
Finish == /\ Open = {} /\ 0 - 1 \notin done /\ done' = done \cup {0 - 1} /\ UNCHANGED <<case, res>> /\ Verdict(case, Judge)
Next == Settle \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
