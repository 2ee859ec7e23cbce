----------------------------- MODULE Catalogue -----------------------------
(* The sheet catalogue: the entries of the workbook header, in their order,
   and which substream each leads to.  Only worksheet entries are sheets to
   the user; the others occupy a place in the file's own numbering.
   An entry: [name (code units), vis, type, sub].                            *)
EXTENDS Common

Start == [all |-> <<>>, user |-> <<>>]
(* all: for every entry its user number or -1; user: the visible catalogue   *)
Add(st, e) == IF e.type = 0
              THEN [all |-> Append(st.all, Len(st.user)), user |-> Append(st.user, e)]
              ELSE [st EXCEPT !.all = Append(@, -1)]
ByName(st, u) == LET S == {i \in DOMAIN st.user : Same(st.user[i].name, u)}
                 IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
ByIndex(st, k) == IF k + 1 \in DOMAIN st.user THEN k ELSE -1
=============================================================================
