---------------------------- MODULE CatalogueMC ----------------------------
(* Every header of up to N entries and every physical order of its
   substreams; exported for replay.                                          *)
EXTENDS Catalogue
CONSTANT N
VARIABLES es, order, st, pos
vars == <<es, order, st, pos>>
Perms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
Name(i) == <<96 + i>>
Init == /\ \E n \in 1..N : \E t \in [1..n -> {0, 2, 6}] : \E p \in Perms(n) :
              /\ es = [i \in 1..n |-> [name |-> Name(i), vis |-> i % 3, type |-> t[i], sub |-> i]] /\ order = p
        /\ st = Start /\ pos = 0
Next == pos < Len(es) /\ st' = Add(st, es[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<es, order>>
Spec == Init /\ [][Next]_vars
(* user numbers follow the file's order without gaps, and names lead back    *)
Numbers == /\ \A i \in DOMAIN st.all : st.all[i] # -1 => st.user[st.all[i] + 1] = es[i]
           /\ \A i, j \in DOMAIN st.all : i < j /\ st.all[i] # -1 /\ st.all[j] # -1 => st.all[i] < st.all[j]
           /\ {st.all[i] : i \in DOMAIN st.all} \ {-1} = 0..Len(st.user)-1
           /\ \A k \in DOMAIN st.user : ByName(st, st.user[k].name) = k - 1
Export == IF pos = Len(es) /\ \E i \in DOMAIN es : es[i].type = 0
          THEN PrintT("S|" \o ToJson([es |-> es, order |-> order])) ELSE TRUE
=============================================================================
