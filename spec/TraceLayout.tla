---------------------------- MODULE TraceLayout ----------------------------
EXTENDS Layout
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, st
vars == <<case, pos, st>>
S == Cases[case].s
O == Cases[case].o
Init == case \in 1..Len(Cases) /\ pos = 0 /\ st = [Start EXCEPT !.pal = Get(Cases[case].s, "pal", <<>>)]
Step == /\ pos < Len(S.ev)
        /\ st' = Apply(st, S.ev[pos + 1], S.opt)
        /\ pos' = pos + 1 /\ UNCHANGED case
RowOk == /\ Len(O.rows) = Cardinality(DOMAIN st.rows)
         /\ LET want == AsList(st.rows) IN
            \A i \in DOMAIN want : Same(O.rows[i][1], want[i][1]) /\
               \A k \in 1..10 : want[i][2][k] = "-" \/ Same(O.rows[i][2][k], want[i][2][k])
RowOk2 == LET want == AsList(st.rows) IN
          /\ Same([i \in DOMAIN O.rows |-> O.rows[i][1]], AscKeys(st.rows))
          /\ \A i \in DOMAIN want : \A k \in 1..10 :
                Same(want[i][2][k], "-") \/ Same(O.rows[i][2][k], want[i][2][k])
Judge ==
    IF Cases[case].hang THEN <<"hang">>
    ELSE IF Has(O, "err") THEN <<"opens_without_error">>
    ELSE Failing(<<
        <<"merged", Same(O.merged, st.merged)>>,
        <<"row_label_ranges", Same(O.rowlab, st.rowlab)>>,
        <<"col_label_ranges", Same(O.collab, st.collab)>>,
        <<"horizontal_page_breaks", Same(O.hbr, st.hbr)>>,
        <<"vertical_page_breaks", Same(O.vbr, st.vbr)>>,
        <<"rowinfo", RowOk2>>,
        <<"colinfo", Same(O.cols, AsList(st.cols))>>,
        <<"widths", IF S.opt.fmt THEN Same(O.widths, [i \in DOMAIN S.wcols |-> Width(st, S.wcols[i], S.opt.ver)])
                    ELSE Same(O.widths, [i \in DOMAIN S.wcols |-> "refused"])>>,
        <<"defcolwidth", Same(O.defcol, NoneIf(st.defcol))>>,
        <<"standardwidth", Same(O.std, NoneIf(st.std))>>,
        <<"window_flags", Same(O.w2, st.w2)>>,
        <<"first_visible", Same(O.fv, <<st.fvr, st.fvc>>)>>,
        <<"gridline_colour", \E g \in st.grid : Same(O.grid, g)>>,
        <<"gridline_rgb", IF st.rgb = <<>> THEN Same(O.rgb, "None") ELSE Same(O.rgb, st.rgb)>>,
        <<"cached_zoom", Same(O.cached, <<st.cpbp, st.cnorm>>)>>,
        <<"scl", Same(O.scl, NoneIf(st.scl))>>,
        <<"zoom", Same(O.zoom, Zoom(st))>>,
        <<"pane", Same(O.pane, st.pane)>>,
        <<"default_row", Same(O.drh, NoneIf(st.drh)) /\ Same(O.drf, st.drf)>>,
        <<"visibility", Same(O.vis, S.vis)>>,
        <<"cells_untouched", Same(O.cell, "F3ff0000000000000")>> >>)
Done == /\ pos = Len(S.ev) /\ pos' = pos + 1 /\ UNCHANGED <<case, st>>
        /\ Verdict(case, IF Has(S, "want") /\ ~Has(O, "err") THEN SelectSeq(Judge, LAMBDA c : IsIn(c, S.want)) ELSE Judge)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
