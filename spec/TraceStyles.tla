---------------------------- MODULE TraceStyles ----------------------------
EXTENDS Styles
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = Styles0
Step == /\ pos < Len(S.ev) /\ st' = Record(st, S.ev[pos + 1], S.ver) /\ pos' = pos + 1 /\ UNCHANGED case
FontsOk == /\ Len(O.fonts) = FontIndex(Len(st.fonts) - 1) + 1
           /\ \A i \in DOMAIN st.fonts : LET f == O.fonts[FontIndex(i - 1) + 1] IN
                 f.font_index = FontIndex(i - 1) /\ \A a \in DOMAIN st.fonts[i] : Same(f[a], st.fonts[i][a])
           /\ \A i \in DOMAIN O.fonts : O.fonts[i].font_index = i - 1
FormatsOk == /\ Len(O.formats) >= Len(st.formats) /\ (S.ver # 20 => Len(O.formats) = Len(st.formats))
             /\ \A i \in DOMAIN st.formats : /\ O.formats[i][1] = st.formats[i][1] /\ Same(O.formats[i][3], st.formats[i][2])
                                             /\ O.formats[i][2] \in OwnTypes(st.formats[i][2])
OwnAt(k) == {i \in DOMAIN st.formats : st.formats[i][1] = k}
\* O.fmap: <<key, index in the list of own formats or -1, type, text>>
MapOk == /\ \A i \in DOMAIN O.fmap : LET m == O.fmap[i] IN
               \/ S.ver = 20
               \/ OwnAt(m[1]) # {} /\ m[2] = Max(OwnAt(m[1])) - 1
               \/ OwnAt(m[1]) = {} /\ S.ver >= 50 /\ m[1] \in StdKeys /\ m[2] = -1 /\ m[3] = StdType(m[1])
                    /\ (m[1] \in DOMAIN StdText => Same(m[4], StdText[m[1]]))
         /\ LET ks == {O.fmap[i][1] : i \in DOMAIN O.fmap} IN
            /\ \A i \in DOMAIN st.formats : st.formats[i][1] \in ks
            /\ (S.ver >= 50 /\ st.xfs # <<>> => StdKeys \subseteq ks)
XfDiff(x, o) == {a \in Attrs : ~Same(x[a], o[a])}
XfBad == IF Len(O.xfs) # Len(st.xfs) THEN {"count"} ELSE UNION {XfDiff(st.xfs[i], O.xfs[i]) : i \in DOMAIN st.xfs}
\* version 2.0: no style records; each cell's own attribute bytes make its style
Cell20Bad == UNION {XfDiff(Xf(20, S.cells20[i]), O.cells20[i]) \ {"parent"} : i \in DOMAIN S.cells20}
               \cup (IF \A i \in DOMAIN O.cells20 : O.cells20[i].parent_is_style THEN {} ELSE {"parent"})
StylesOk == Len(O.styles) = Len(st.styles) /\ \A i \in DOMAIN st.styles : \E j \in DOMAIN O.styles : Same(O.styles[j], st.styles[i])
MapColour == ColourMap(S.ver, st.pal)
ColourOk == /\ {O.colours[i][1] : i \in DOMAIN O.colours} = DOMAIN MapColour
            /\ \A i \in DOMAIN O.colours : LET c == MapColour[O.colours[i][1]] IN
                   IF c = <<>> THEN Same(O.colours[i][2], "None") ELSE Same(O.colours[i][2], c)
Judge == IF Cases[case].hang THEN <<"hang">>
         ELSE IF Has(O, "err") THEN <<"opens_without_error">>
         ELSE Failing(<<<<"fonts", FontsOk>>, <<"formats", FormatsOk>>, <<"format_map", MapOk>>, <<"styles", StylesOk>>,
                        <<"palette", Same(O.pal, st.pal)>>, <<"colours", ColourOk>>>>)
              \o SetToSeq({"xf_" \o a : a \in IF S.ver = 20 THEN Cell20Bad ELSE XfBad})
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>> /\ Verdict(case, Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
