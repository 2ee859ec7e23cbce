------------------------------ MODULE Container ------------------------------
(* An OLE2 compound file as a heap of sectors plus a header.  Reading it is a
   machine that goes through phases (master table, allocation table, directory,
   mini-stream container, mini allocation table) and then answers "which bytes
   are stored under this path?".  Structures claim sectors; a damaged chain is
   cyclic, leaves the file, stops early, runs past its end or is shared.

   A container c has
     sig, bom        header marks are right
     ssz, sssz       log2 of the real sector / mini-sector size (usz: of the
                     unit in which stream contents are compared)
     hssz, hsssz     what the header says they are
     nsecs, tail     whole sectors in the file, bytes of a cut-short last one
     cut             TRUE if not even the header is complete
     dir, mincut, ssat, nssat, msatx, nmsatx, msat   header fields
     ints            sector -> allocation entries (trailing free ones omitted)
     dirs            sector -> directory entries
     dup             unit -> first unit with the same contents, if another   *)
EXTENDS Common, FiniteSetsExt

Nent(c) == Pow2(c.ssz - 2)
NSecs(c) == c.nsecs + (IF c.tail > 0 THEN 1 ELSE 0)
Key(s) == ToString(s)
HasInts(c, s) == Key(s) \in DOMAIN c.ints
IntAt(c, s, i) == LET v == c.ints[Key(s)] IN IF i < Len(v) THEN v[i + 1] ELSE -1
Cut(c, s) == c.tail > 0 /\ s = c.nsecs       \* the last sector, cut short

EOC == -2
(* Follow f from s through 0..n-1.                                           *)
RECURSIVE Walk(_, _, _, _)
Walk(f, n, s, acc) ==
    IF s = EOC THEN [ids |-> acc, end |-> "eoc"]
    ELSE IF s < 0 THEN [ids |-> acc, end |-> "stray"]
    ELSE IF s >= n THEN [ids |-> acc, end |-> "leaves"]
    ELSE IF Len(acc) >= n THEN [ids |-> acc, end |-> "cyclic"]
    ELSE Walk(f, n, f[s], Append(acc, s))
Ids(ch) == {ch.ids[i] : i \in DOMAIN ch.ids}
Repeats(ch) == Cardinality(Ids(ch)) < Len(ch.ids)
Broken(ch) == ch.end # "eoc" \/ Repeats(ch)

(* ---- the reading machine ---- *)
Start0 == [ph |-> "header", must |-> FALSE, may |-> FALSE, unknown |-> FALSE, claims |-> {}]
Fail(st) == [st EXCEPT !.must = TRUE, !.ph = "done"]
Unknown(st) == [st EXCEPT !.unknown = TRUE, !.ph = "done"]

SizeOk(c) == (c.hssz = c.ssz \/ c.hssz > 20) /\ (c.hsssz = c.sssz \/ c.hsssz > 20)
Header(c, st) ==
    IF ~c.sig \/ ~c.bom \/ c.cut > 0 THEN Fail(st)
    \* a false but possible size is a different container, not a damaged one
    ELSE IF ~SizeOk(c) THEN Unknown(st)
    ELSE [ph |-> "msatx", must |-> FALSE, unknown |-> FALSE, claims |-> {},
          may |-> c.hssz # c.ssz \/ c.hsssz # c.sssz]

\* extension sectors of the master table: the last entry links to the next
RECURSIVE MsatChain(_, _, _)
MsatChain(c, s, acc) ==
    IF s \in {-1, -2, -4} THEN [ids |-> acc, end |-> "eoc"]
    ELSE IF s < 0 THEN [ids |-> acc, end |-> "stray"]
    ELSE IF s >= NSecs(c) \/ Cut(c, s) THEN [ids |-> acc, end |-> "leaves"]
    ELSE IF ~HasInts(c, s) THEN [ids |-> Append(acc, s), end |-> "unknown"]
    ELSE IF Len(acc) > NSecs(c) THEN [ids |-> acc, end |-> "cyclic"]
    ELSE MsatChain(c, IntAt(c, s, Nent(c) - 1), Append(acc, s))
MasterTable(c, st) ==
    LET none == c.nmsatx = 0 /\ c.msatx \in {-1, -2, 0}
        ch == IF none THEN [ids |-> <<>>, end |-> "eoc"] ELSE MsatChain(c, c.msatx, <<>>)
        RECURSIVE ext(_)
        ext(i) == IF i > Len(ch.ids) THEN <<>>
                  ELSE [j \in 1..(Nent(c) - 1) |-> IntAt(c, ch.ids[i], j - 1)] \o ext(i + 1)
    IN IF ch.end = "unknown" THEN Unknown(st)
       ELSE IF Broken(ch) THEN Fail(st)
       ELSE [ph |-> "sat", must |-> FALSE, unknown |-> FALSE, claims |-> Ids(ch),
             may |-> st.may \/ Len(ch.ids) # c.nmsatx,
             msat |-> SelectSeq(c.msat \o ext(1), LAMBDA m : m \notin {-1, -2})]

AllocationTable(c, st) ==
    LET m == st.msat
        here == {i \in DOMAIN m : m[i] >= 0 /\ m[i] < NSecs(c)}
        used == {m[i] : i \in here}
        n == NSecs(c)
        slot(s) == 1 + s \div Nent(c)
    IN IF \E i \in DOMAIN m : m[i] < 0 THEN Fail(st)
       ELSE IF Cardinality(used) < Cardinality(here) \/ used \cap st.claims # {} THEN Fail(st)
       ELSE IF \E s \in used : Cut(c, s) THEN Fail(st)
       ELSE IF \E s \in used : ~HasInts(c, s) THEN Unknown(st)
       ELSE [ph |-> "dir", must |-> FALSE, unknown |-> FALSE, claims |-> st.claims \cup used,
             may |-> st.may \/ Len(m) # c.nsat \/ Cardinality(here) < Len(m),
             \* sectors without an entry: any chain reaching them leaves the table
             sat |-> [s \in 0..(n - 1) |-> IF slot(s) > Len(m) THEN n
                                           ELSE IF slot(s) \notin here THEN n
                                           ELSE IntAt(c, m[slot(s)], s % Nent(c))]]

Directory(c, st) ==
    LET ch == Walk(st.sat, NSecs(c), c.dir, <<>>)
        RECURSIVE all(_)
        all(i) == IF i > Len(ch.ids) THEN <<>> ELSE c.dirs[Key(ch.ids[i])] \o all(i + 1)
    IN IF Broken(ch) \/ ch.ids = <<>> \/ Ids(ch) \cap st.claims # {} THEN Fail(st)
       ELSE IF \E s \in Ids(ch) : Cut(c, s) THEN Fail(st)
       ELSE IF \E s \in Ids(ch) : Key(s) \notin DOMAIN c.dirs THEN Unknown(st)
       ELSE [ph |-> "tree", must |-> FALSE, unknown |-> FALSE, claims |-> st.claims \cup Ids(ch),
             may |-> st.may, sat |-> st.sat, ents |-> all(1)]

\* entry k (0-based) is ents[k + 1] = [n, t, l, r, c, s, z]
Links(e) == <<e.l, e.r>> \o (IF e.t = 1 THEN <<e.c>> ELSE <<>>)
RECURSIVE Reach(_, _, _, _)
Reach(ents, front, acc, deep) ==
    LET new == {k \in front : k >= 0 /\ k < Len(ents)} \ acc
        nxt == UNION {IF deep THEN {ents[k + 1].l, ents[k + 1].r, IF ents[k + 1].t = 1 THEN ents[k + 1].c ELSE -1}
                      ELSE {ents[k + 1].l, ents[k + 1].r} : k \in new}
    IN IF new = {} THEN acc ELSE Reach(ents, nxt, acc \cup new, deep)
Tree(c, st) ==
    LET e == st.ents
        all == Reach(e, {e[1].c}, {}, TRUE)
        cnt(k) == Cardinality({j \in {1, 2, 3} : j <= Len(Links(e[k + 1])) /\ Links(e[k + 1])[j] >= 0})
        nrefs == (IF e[1].c >= 0 THEN 1 ELSE 0) + FoldSet(LAMBDA k, acc : acc + cnt(k), 0, all)
        ok == /\ e[1].t = 5
              /\ nrefs = Cardinality(all)          \* no entry is reached twice, none is outside
              /\ 0 \notin all
              /\ \A k \in all : e[k + 1].t \in {1, 2}
    IN [st EXCEPT !.ph = "mini", !.may = st.may \/ ~ok]

NoMini == [ids |-> <<>>, end |-> "eoc"]
Ceil(size, k) == (size \div k) + (IF size % k = 0 THEN 0 ELSE 1)
Secs(c, size) == Ceil(size, Pow2(c.ssz))
MiniTables(c, st) ==
    LET root == st.ents[1]
        has == root.s >= 0 /\ root.z # 0
        box == IF has THEN Walk(st.sat, NSecs(c), root.s, <<>>) ELSE NoMini
        tab == IF root.z > 0 THEN Walk(st.sat, NSecs(c), c.ssat, <<>>) ELSE NoMini
        clash == \/ Ids(box) \cap st.claims # {} \/ Ids(tab) \cap st.claims # {}
                 \/ Ids(box) \cap Ids(tab) # {}
        known == \A s \in Ids(tab) : HasInts(c, s)
        m == Len(tab.ids) * Nent(c)
        nm == Min2(m, Min2(Len(box.ids) * Pow2(c.ssz), root.z) \div Pow2(c.sssz) + 1)
    IN IF Broken(box) \/ Broken(tab) \/ clash THEN Fail(st)
       ELSE IF \E s \in Ids(tab) : Cut(c, s) THEN Fail(st)
       ELSE IF ~known THEN Unknown(st)
       ELSE [st EXCEPT !.ph = "done", !.claims = st.claims \cup Ids(box) \cup Ids(tab),
                       !.may = st.may \/ root.z < 0 \/ Len(box.ids) # Secs(c, root.z)
                                      \/ (has /\ Len(tab.ids) # c.nssat) \/ (\E s \in Ids(box) : Cut(c, s))]
            @@ [ok |-> TRUE, box |-> box.ids, badbox |-> has /\ Len(box.ids) < Secs(c, root.z),
                badtab |-> has /\ Len(tab.ids) # c.nssat,
                ssat |-> [s \in 0..(nm - 1) |-> IntAt(c, tab.ids[1 + s \div Nent(c)], s % Nent(c))], nm |-> nm]

Phase(c, st) ==
    CASE st.ph = "header" -> Header(c, st)
      [] st.ph = "msatx" -> MasterTable(c, st)
      [] st.ph = "sat" -> AllocationTable(c, st)
      [] st.ph = "dir" -> Directory(c, st)
      [] st.ph = "tree" -> Tree(c, st)
      [] st.ph = "mini" -> MiniTables(c, st)

(* ---- questions to a container that has been read ---- *)
LowerU(u) == [i \in DOMAIN u |-> IF u[i] >= 65 /\ u[i] <= 90 THEN u[i] + 32 ELSE u[i]]
Children(ents, k) == Reach(ents, {ents[k + 1].c}, {}, FALSE)
RECURSIVE Find(_, _, _)
Find(ents, path, k) ==
    LET hit == {x \in Children(ents, k) : Same(LowerU(ents[x + 1].n), LowerU(path[1]))}
    IN IF hit = {} THEN -1
       ELSE LET x == CHOOSE y \in hit : TRUE IN
            IF ents[x + 1].t = 2 THEN x
            ELSE IF ents[x + 1].t = 1 /\ Len(path) > 1 THEN Find(ents, Tail(path), x)
            ELSE -2                                     \* a storage, not a stream

UnitsPer(c) == Pow2(c.ssz - c.usz)
Canon(c, u) == IF ToString(u) \in DOMAIN c.dup THEN c.dup[ToString(u)] ELSE u
(* unit holding byte o of the regular stream with sectors ids / of the mini
   stream with mini-sectors mids in the container box                        *)
RegUnit(c, ids, o) == ids[1 + o \div Pow2(c.ssz)] * UnitsPer(c) + (o % Pow2(c.ssz)) \div Pow2(c.usz)
MiniUnit(c, box, mids, o) == RegUnit(c, box, mids[1 + o \div Pow2(c.sssz)] * Pow2(c.sssz) + (o % Pow2(c.sssz)))

(* [k |-> "error"] | [k |-> "absent"] | [k |-> "data" or "either", size, u]   *)
Answer(c, st, path, ignore) ==
    IF st.unknown THEN [k |-> "any"]
    ELSE IF st.must THEN [k |-> "error"]
    ELSE LET x == Find(st.ents, path, 0) IN
    IF x = -1 THEN [k |-> IF st.may THEN "noData" ELSE "absent"]
    ELSE IF x = -2 THEN [k |-> "noData"]
    ELSE LET e == st.ents[x + 1]
             reg == e.z >= c.mincut
             n == IF reg THEN NSecs(c) ELSE st.nm
             f == IF reg THEN st.sat ELSE st.ssat
             ch == IF e.z = 0 /\ ~reg /\ e.s < 0 THEN NoMini   \* an empty stream has no chain
                    ELSE Walk(f, n, e.s, <<>>)
             want == IF reg THEN Secs(c, e.z) ELSE Ceil(e.z, Pow2(c.sssz))
             shared == reg /\ Ids(ch) \cap st.claims # {}
             avail == IF reg THEN TRUE ELSE \A i \in DOMAIN ch.ids :
                        (ch.ids[i] * Pow2(c.sssz)) + Min2(Pow2(c.sssz), e.z - (i - 1) * Pow2(c.sssz))
                          <= Min2(st.ents[1].z, Len(st.box) * Pow2(c.ssz))
             cutShort == IF reg THEN \E s \in Ids(ch) : Cut(c, s) ELSE \E i \in DOMAIN st.box : Cut(c, st.box[i])
         IN IF e.z < 0 \/ Broken(ch) \/ Len(ch.ids) # want \/ ~avail \/ (shared /\ ~ignore) THEN [k |-> "error"]
            ELSE IF ~reg /\ e.z > 0 /\ (st.badtab \/ st.badbox) /\ ~cutShort THEN [k |-> "either", size |-> e.z, ids |-> ch.ids, reg |-> reg, pre |-> FALSE]
            ELSE [k |-> IF st.may \/ cutShort \/ (e.z = 0 /\ (reg \/ e.s # EOC)) THEN "either" ELSE "data", size |-> e.z, ids |-> ch.ids, reg |-> reg, pre |-> cutShort]

ExpUnit(c, st, a, i) ==      \* i-th unit (0-based) of the answer
    LET o == i * Pow2(c.usz) IN
    IF a.reg THEN RegUnit(c, a.ids, o) ELSE MiniUnit(c, st.box, a.ids, o)
IsData(c, st, a, o) ==
  IF Has(o, "cells") THEN Same(o.cells, o.bare) ELSE
    LET full == o.len \div Pow2(c.usz) IN
    /\ IF a.pre THEN o.len <= a.size ELSE o.len = a.size
    /\ Len(o.u) = full
    /\ \A i \in 1..full : o.u[i] = Canon(c, ExpUnit(c, st, a, i - 1))
    /\ (o.len % Pow2(c.usz) # 0) => IsIn(ExpUnit(c, st, a, full), o.last)
Accept(c, st, a, o) ==
    CASE a.k = "any" -> o.res # "hang"
      [] a.k = "error" -> o.res = "error"
      [] a.k = "absent" -> o.res = "absent"
      [] a.k = "noData" -> o.res \in {"error", "absent"}
      [] a.k = "data" -> o.res = "data" /\ IsData(c, st, a, o)
      [] a.k = "either" -> o.res \in {"error", "absent"} \/ (o.res = "data" /\ IsData(c, st, a, o))
=============================================================================
