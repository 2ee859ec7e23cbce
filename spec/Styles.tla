------------------------------- MODULE Styles -------------------------------
(* The style tables of a workbook: FONT, FORMAT, XF, STYLE and PALETTE records,
   read byte by byte.  Every attribute of a style record is a bit field at a
   fixed place; the layout tables below say where, version by version.        *)
EXTENDS DateFormat, Palette

\* n bits of byte string b from bit offset off (bit 0 = least significant of b[1])
BF(b, off, n) ==
    LET RECURSIVE go(_)
        go(k) == IF k = n THEN 0
                 ELSE ((b[((off + k) \div 8) + 1] \div Pow2((off + k) % 8)) % 2) * Pow2(k) + go(k + 1)
    IN go(0)
Flags(o) == <<<<"format_flag", o, 1>>, <<"font_flag", o + 1, 1>>, <<"alignment_flag", o + 2, 1>>, <<"border_flag", o + 3, 1>>,
              <<"background_flag", o + 4, 1>>, <<"protection_flag", o + 5, 1>>>>
TypePar(o) == <<<<"cell_locked", o, 1>>, <<"formula_hidden", o + 1, 1>>, <<"is_style", o + 2, 1>>, <<"lotus", o + 3, 1>>, <<"parent", o + 4, 12>>>>
Align1(o) == <<<<"hor_align", o, 3>>, <<"text_wrapped", o + 3, 1>>, <<"vert_align", o + 4, 3>>>>
Border34(o) == <<<<"top_line", o, 3>>, <<"top_colour", o + 3, 5>>, <<"left_line", o + 8, 3>>, <<"left_colour", o + 11, 5>>,
                 <<"bottom_line", o + 16, 3>>, <<"bottom_colour", o + 19, 5>>, <<"right_line", o + 24, 3>>, <<"right_colour", o + 27, 5>>>>
Bkg34(o) == <<<<"fill", o, 6>>, <<"pattern_colour", o + 6, 5>>, <<"background_colour", o + 11, 5>>>>

Fields(ver) ==
    CASE ver >= 80 -> <<<<"font", 0, 16>>, <<"format", 16, 16>>>> \o TypePar(32) \o Align1(48)
            \o <<<<"rotation", 56, 8>>, <<"indent", 64, 4>>, <<"shrink", 68, 1>>, <<"direction", 70, 2>>>> \o Flags(74)
            \o <<<<"left_line", 80, 4>>, <<"right_line", 84, 4>>, <<"top_line", 88, 4>>, <<"bottom_line", 92, 4>>,
                 <<"left_colour", 96, 7>>, <<"right_colour", 103, 7>>, <<"diag_down", 110, 1>>, <<"diag_up", 111, 1>>,
                 <<"top_colour", 112, 7>>, <<"bottom_colour", 119, 7>>, <<"diag_colour", 126, 7>>, <<"diag_line", 133, 4>>,
                 <<"fill", 138, 6>>, <<"pattern_colour", 144, 7>>, <<"background_colour", 151, 7>>>>
      [] ver >= 50 -> <<<<"font", 0, 16>>, <<"format", 16, 16>>>> \o TypePar(32) \o Align1(48)
            \o <<<<"orientation", 56, 2>>>> \o Flags(58)
            \o <<<<"pattern_colour", 64, 7>>, <<"background_colour", 71, 7>>, <<"fill", 80, 6>>, <<"bottom_line", 86, 3>>,
                 <<"bottom_colour", 89, 7>>, <<"top_line", 96, 3>>, <<"left_line", 99, 3>>, <<"right_line", 102, 3>>,
                 <<"top_colour", 105, 7>>, <<"left_colour", 112, 7>>, <<"right_colour", 119, 7>>>>
      [] ver >= 40 -> <<<<"font", 0, 8>>, <<"format", 8, 8>>>> \o TypePar(16)
            \o <<<<"hor_align", 32, 3>>, <<"text_wrapped", 35, 1>>, <<"vert_align", 36, 2>>, <<"orientation", 38, 2>>>>
            \o Flags(42) \o Bkg34(48) \o Border34(64)
      [] ver >= 30 -> <<<<"font", 0, 8>>, <<"format", 8, 8>>, <<"cell_locked", 16, 1>>, <<"formula_hidden", 17, 1>>, <<"is_style", 18, 1>>, <<"lotus", 19, 1>>>>
            \o Flags(26) \o <<<<"hor_align", 32, 3>>, <<"text_wrapped", 35, 1>>, <<"parent", 36, 12>>>> \o Bkg34(48) \o Border34(64)
      [] ver = 21 -> <<<<"font", 0, 8>>, <<"format", 16, 6>>, <<"cell_locked", 22, 1>>, <<"formula_hidden", 23, 1>>, <<"hor_align", 24, 3>>,
                       <<"b_left", 27, 1>>, <<"b_right", 28, 1>>, <<"b_top", 29, 1>>, <<"b_bottom", 30, 1>>, <<"shaded", 31, 1>>>>
      \* the attribute bytes of a version 2.0 cell
      [] OTHER -> <<<<"cell_locked", 6, 1>>, <<"formula_hidden", 7, 1>>, <<"format", 8, 6>>, <<"font", 14, 2>>, <<"hor_align", 16, 3>>,
                    <<"b_left", 19, 1>>, <<"b_right", 20, 1>>, <<"b_top", 21, 1>>, <<"b_bottom", 22, 1>>, <<"shaded", 23, 1>>>>
XfLen(ver) == CASE ver >= 80 -> 20 [] ver >= 50 -> 16 [] ver >= 30 -> 12 [] ver = 21 -> 4 [] OTHER -> 3

\* what an attribute is when the version has no field for it
Default(f) ==
    CASE f = "vert_align" -> 2 [] OTHER -> 0
Attrs == {"font", "format", "cell_locked", "formula_hidden", "is_style", "lotus", "parent", "hor_align", "text_wrapped", "vert_align", "rotation",
          "indent", "shrink", "direction", "format_flag", "font_flag", "alignment_flag", "border_flag", "background_flag", "protection_flag",
          "left_line", "right_line", "top_line", "bottom_line", "diag_line", "left_colour", "right_colour", "top_colour", "bottom_colour",
          "diag_colour", "diag_down", "diag_up", "fill", "pattern_colour", "background_colour"}
Rotations == <<0, 255, 90, 180>>
Raw(ver, b) ==
    LET fs == Fields(ver)
        dom == {fs[i][1] : i \in DOMAIN fs}
    IN [f \in dom |-> LET i == CHOOSE i \in DOMAIN fs : fs[i][1] = f IN BF(b, fs[i][2], fs[i][3])]
Xf(ver, b) ==
    LET r == Raw(ver, b)
        old == ver < 30
        edge(f, v) == IF r[f] = 1 THEN v ELSE 0
    IN [f \in Attrs |->
          CASE f \in DOMAIN r -> r[f]
            [] f = "rotation" /\ "orientation" \in DOMAIN r -> Rotations[r["orientation"] + 1]
            [] old /\ f \in {"format_flag", "font_flag", "alignment_flag", "border_flag", "background_flag", "protection_flag"} -> 1
            [] old /\ f = "left_line" -> edge("b_left", 1)     [] old /\ f = "left_colour" -> edge("b_left", 8)
            [] old /\ f = "right_line" -> edge("b_right", 1)   [] old /\ f = "right_colour" -> edge("b_right", 8)
            [] old /\ f = "top_line" -> edge("b_top", 1)       [] old /\ f = "top_colour" -> edge("b_top", 8)
            [] old /\ f = "bottom_line" -> edge("b_bottom", 1) [] old /\ f = "bottom_colour" -> edge("b_bottom", 8)
            [] old /\ f = "fill" -> edge("shaded", 17)
            [] old /\ f = "background_colour" -> 9             [] old /\ f = "pattern_colour" -> 8
            [] OTHER -> Default(f)]

(* ------------------------------------------------------------- fonts --- *)
LatinName(b, o) == [i \in 1..b[o + 1] |-> b[o + 1 + i]]
WideName(b, o) == LET n == b[o + 1] IN
    IF b[o + 2] % 2 = 1 THEN [i \in 1..n |-> b[o + 1 + 2 * i] + 256 * b[o + 2 + 2 * i]] ELSE [i \in 1..n |-> b[o + 2 + i]]
Font(ver, b) ==
    LET o(k) == BF(b, 16 + k, 1)
        common == [height |-> BF(b, 0, 16), bold |-> o(0), italic |-> o(1), underlined |-> o(2), struck_out |-> o(3)]
        outl == IF ver >= 30 THEN [outline |-> o(4), shadow |-> o(5)] ELSE [outline |-> 0, shadow |-> 0]
        rest == IF ver >= 50 THEN [colour_index |-> BF(b, 32, 16), weight |-> BF(b, 48, 16), escapement |-> BF(b, 64, 16), underline_type |-> b[11],
                                   family |-> b[12], character_set |-> b[13], name |-> IF ver >= 80 THEN WideName(b, 14) ELSE LatinName(b, 14)]
                ELSE [colour_index |-> IF ver >= 30 THEN BF(b, 32, 16) ELSE 32767, weight |-> IF o(0) = 1 THEN 700 ELSE 400, escapement |-> 0,
                      underline_type |-> o(2), family |-> 0, character_set |-> 1, name |-> LatinName(b, IF ver >= 30 THEN 6 ELSE 4)]
    IN common @@ outl @@ rest
\* index 4 is never used
FontIndex(n) == IF n < 4 THEN n ELSE n + 1

(* ----------------------------------------------------------- formats --- *)
FmtText(ver, b) ==
    CASE ver >= 80 -> LET n == BF(b, 16, 16) IN
                      IF n = 0 THEN <<>> ELSE IF b[5] % 2 = 1 THEN [i \in 1..n |-> b[4 + 2 * i] + 256 * b[5 + 2 * i]] ELSE [i \in 1..n |-> b[5 + i]]
      [] ver >= 40 -> LatinName(b, 2)
      [] OTHER -> LatinName(b, 0)

(* ------------------------------------------------------ named styles --- *)
BuiltinStyle == <<"Normal", "RowLevel_", "ColLevel_", "Comma", "Currency", "Percent", "Comma [0]", "Currency [0]", "Hyperlink", "Followed Hyperlink">>
\* a record of four zero bytes means the built-in style Normal, unless there is one
StyleName(ver, b, normal) ==       \* <<built-in?, name as string or as units, style index>>
    IF b = <<0, 0, 0, 0>> /\ ~normal THEN <<1, "Normal", 0>>
    ELSE IF b[2] >= 128 THEN <<1, BuiltinStyle[b[3] + 1] \o (IF b[3] \in {1, 2} THEN ToString(b[4] + 1) ELSE ""), BF(b, 0, 12)>>
    ELSE <<0, IF ver >= 80 THEN LET n == BF(b, 16, 16) IN
                  IF n = 0 THEN <<>> ELSE IF b[5] % 2 = 1 THEN [i \in 1..n |-> b[4 + 2 * i] + 256 * b[5 + 2 * i]] ELSE [i \in 1..n |-> b[5 + i]]
              ELSE LatinName(b, 2), BF(b, 0, 12)>>

(* --------------------------------------------------------- the tables --- *)
Styles0 == [fonts |-> <<>>, formats |-> <<>>, xfs |-> <<>>, styles |-> <<>>, pal |-> <<>>, colours |-> FALSE]
Colours(b) == [i \in 1..BF(b, 0, 16) |-> <<b[4 * i - 1], b[4 * i], b[4 * i + 1]>>]
Record(st, e, ver) ==
    CASE e.op = "font" -> [st EXCEPT !.fonts = Append(st.fonts, Font(ver, e.b))]
      [] e.op = "efont" -> [st EXCEPT !.fonts = [st.fonts EXCEPT ![Len(st.fonts)].colour_index = BF(e.b, 0, 16)]]
      [] e.op = "format" -> [st EXCEPT !.formats = Append(st.formats, <<IF ver >= 50 THEN BF(e.b, 0, 16) ELSE Len(st.formats), FmtText(ver, e.b)>>)]
      [] e.op = "xf" -> [st EXCEPT !.xfs = Append(st.xfs, Xf(ver, e.b))]
      [] e.op = "style" -> LET s == StyleName(ver, e.b, \E i \in DOMAIN st.styles : Same(st.styles[i][2], "Normal")) IN
                           [st EXCEPT !.styles = SelectSeq(st.styles, LAMBDA x : ~Same(x[2], s[2])) \o <<s>>]
      [] e.op = "palette" -> [st EXCEPT !.pal = Colours(e.b)]
      [] OTHER -> st

\* keys every version 5+ workbook has without defining them, with their texts
StdText == [x \in {} |-> ""] @@ (0 :> "General") @@ (1 :> "0") @@ (2 :> "0.00") @@ (3 :> "#,##0") @@ (4 :> "#,##0.00") @@ (9 :> "0%") @@ (10 :> "0.00%")
    @@ (11 :> "0.00E+00") @@ (12 :> "# ?/?") @@ (13 :> "# ??/??") @@ (14 :> "m/d/yy") @@ (15 :> "d-mmm-yy") @@ (16 :> "d-mmm") @@ (17 :> "mmm-yy")
    @@ (18 :> "h:mm AM/PM") @@ (19 :> "h:mm:ss AM/PM") @@ (20 :> "h:mm") @@ (21 :> "h:mm:ss") @@ (22 :> "m/d/yy h:mm") @@ (45 :> "mm:ss")
    @@ (46 :> "[h]:mm:ss") @@ (47 :> "mm:ss.0") @@ (48 :> "##0.0E+0") @@ (49 :> "@")
StdKeys == (0..22) \cup (27..62) \cup (67..81)
\* classification of a built-in key: 1 date, 2 number, 3 general, 4 text
StdType(k) == IF k = 0 THEN 3 ELSE IF k = 49 THEN 4 ELSE IF BuiltinDate(k) THEN 1 ELSE 2
OwnTypes(u) == LET l == Lex(u) IN IF Doubtful(l) THEN {1, 3} ELSE {IF IsDate(l) THEN 1 ELSE 3}
=============================================================================
