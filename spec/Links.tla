-------------------------------- MODULE Links --------------------------------
(* Hyperlink records as a machine over their stored bytes: the option bits
   select, in a fixed order, which fields follow; a tool-tip record belongs to
   the link just before it; the link seen at a cell is the last one whose
   rectangle covers it.                                                      *)
EXTENDS Text
HLinkGuid == <<208, 201, 234, 121, 249, 186, 206, 17, 140, 130, 0, 170, 0, 75, 169, 11>>
UrlGuid   == <<224, 201, 234, 121, 249, 186, 206, 17, 140, 130, 0, 170, 0, 75, 169, 11>>
FileGuid  == <<3, 3, 0, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>>
None == "None"
UnitsAt(b, o, n) == [i \in 1..n |-> U16(b, o + 2 * (i - 1))]
BytesAt(b, o, n) == [i \in 1..n |-> b[o + i]]
\* one field: <<value, next offset>>
NulText(b, o) == LET n == I32(b, o) IN <<UnitsAt(b, o + 4, n - 1), o + 4 + 2 * n>>
RECURSIVE UpToNul(_)
UpToNul(u) == IF u = <<>> \/ u[1] = 0 THEN <<>> ELSE <<u[1]>> \o UpToNul(Tail(u))
\* the parser's state: [o, f] with f the fields recognised so far
Opt(on, field, st, b) == IF on THEN LET r == NulText(b, st.o) IN [o |-> r[2], f |-> [st.f EXCEPT ![field] = r[1]]] ELSE st
Moniker(st, b) ==
    LET g == BytesAt(b, st.o, 16)
        o == st.o + 16
    IN IF g = UrlGuid
       THEN LET n == I32(b, o) IN
            [o |-> o + 4 + n, f |-> [st.f EXCEPT !.type = "url", !.path = UpToNul(UnitsAt(b, o + 4, n \div 2))]]
       ELSE \* file: parent levels, short name, 24 opaque bytes, optional wide name
            LET up == U16(b, o)
                n == I32(b, o + 2)
                short == [i \in 1..(3 * up) |-> <<46, 46, 92>>[1 + ((i - 1) % 3)]] \o BytesAt(b, o + 6, n - 1)
                o2 == o + 6 + n + 24
                sz == I32(b, o2)
                x == I32(b, o2 + 4)
            IN [o |-> o2 + 4 + sz,
                f |-> [st.f EXCEPT !.type = "local file",
                                   !.path = IF sz = 0 THEN [bytes |-> short] ELSE UnitsAt(b, o2 + 10, x \div 2)]]
Fields == [type |-> None, path |-> None, desc |-> None, target |-> None, mark |-> None, tip |-> None]
Parse(b) ==
    LET op == b[29] + 256 * b[30]
        on(k) == Bit(op, k) = 1
        s0 == [o |-> 32, f |-> Fields]
        s1 == Opt(on(2) \/ on(4), "desc", s0, b)
        s2 == Opt(on(7), "target", s1, b)
        s3 == IF on(0) /\ ~on(8) THEN Moniker(s2, b)
              ELSE IF on(0) /\ on(8) /\ on(1) THEN Opt(TRUE, "path", [s2 EXCEPT !.f.type = "unc"], b)
              ELSE [s2 EXCEPT !.f.type = "workbook"]
        s4 == Opt(on(3), "mark", s3, b)
    IN [range |-> <<U16(b, 0), U16(b, 2), U16(b, 4), U16(b, 6)>>, f |-> s4.f, rest |-> Len(b) - s4.o]
Legal(b) == /\ BytesAt(b, 8, 16) = HLinkGuid
            /\ LET op == b[29] + 256 * b[30] IN
               \/ Bit(op, 0) = 1 /\ Bit(op, 8) = 0
               \/ Bit(op, 0) = 1 /\ Bit(op, 8) = 1 /\ Bit(op, 1) = 1
               \/ Bit(op, 0) = 0 /\ Bit(op, 3) = 1 /\ Bit(op, 1) = 0 /\ Bit(op, 8) = 0
            /\ Parse(b).rest >= 0

\* sheet level
Start0 == <<>>
Apply(links, e) ==
    CASE e.op = "link" -> Append(links, Parse(e.b))
      [] e.op = "tip" -> [links EXCEPT ![Len(links)].f.tip = e.u]
      [] OTHER -> links
Covers(l, r, c) == l.range[1] <= r /\ r <= l.range[2] /\ l.range[3] <= c /\ c <= l.range[4]
LinkAt(links, r, c) == LET s == {i \in DOMAIN links : Covers(links[i], r, c)}
                       IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
Covered(links) == UNION {(q[1]..q[2]) \X (q[3]..q[4]) : q \in {links[i].range : i \in DOMAIN links}}
=============================================================================
