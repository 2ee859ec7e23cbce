------------------------------- MODULE Palette -------------------------------
(* The colour table of a workbook: eight fixed colours, the default palette of
   the file version (replaced entry by entry by a PALETTE record), and the
   system colours whose value is unknown.                                   *)
EXTENDS Common

Fixed8 == <<<<0,0,0>>, <<255,255,255>>, <<255,0,0>>, <<0,255,0>>, <<0,0,255>>, <<255,255,0>>, <<255,0,255>>, <<0,255,255>>>>
Palette8 == <<<<0,0,0>>, <<255,255,255>>, <<255,0,0>>, <<0,255,0>>, <<0,0,255>>, <<255,255,0>>,
    <<255,0,255>>, <<0,255,255>>, <<128,0,0>>, <<0,128,0>>, <<0,0,128>>, <<128,128,0>>,
    <<128,0,128>>, <<0,128,128>>, <<192,192,192>>, <<128,128,128>>, <<153,153,255>>, <<153,51,102>>,
    <<255,255,204>>, <<204,255,255>>, <<102,0,102>>, <<255,128,128>>, <<0,102,204>>, <<204,204,255>>,
    <<0,0,128>>, <<255,0,255>>, <<255,255,0>>, <<0,255,255>>, <<128,0,128>>, <<128,0,0>>,
    <<0,128,128>>, <<0,0,255>>, <<0,204,255>>, <<204,255,255>>, <<204,255,204>>, <<255,255,153>>,
    <<153,204,255>>, <<255,153,204>>, <<204,153,255>>, <<255,204,153>>, <<51,102,255>>, <<51,204,204>>,
    <<153,204,0>>, <<255,204,0>>, <<255,153,0>>, <<255,102,0>>, <<102,102,153>>, <<150,150,150>>,
    <<0,51,102>>, <<51,153,102>>, <<0,51,0>>, <<51,51,0>>, <<153,51,0>>, <<153,51,102>>,
    <<51,51,153>>, <<51,51,51>>>>
\* versions 5 and 7 differ in one entry, older versions have sixteen
Palette5 == <<<<0,0,0>>, <<255,255,255>>, <<255,0,0>>, <<0,255,0>>, <<0,0,255>>, <<255,255,0>>,
    <<255,0,255>>, <<0,255,255>>, <<128,0,0>>, <<0,128,0>>, <<0,0,128>>, <<128,128,0>>,
    <<128,0,128>>, <<0,128,128>>, <<192,192,192>>, <<128,128,128>>, <<153,153,255>>, <<153,51,102>>,
    <<255,255,204>>, <<204,255,255>>, <<102,0,102>>, <<255,128,128>>, <<0,102,204>>, <<204,204,255>>,
    <<0,0,128>>, <<255,0,255>>, <<255,255,0>>, <<0,255,255>>, <<128,0,128>>, <<128,0,0>>,
    <<0,128,128>>, <<0,0,255>>, <<0,204,255>>, <<204,255,255>>, <<204,255,204>>, <<255,255,153>>,
    <<153,204,255>>, <<255,153,204>>, <<204,153,255>>, <<227,227,227>>, <<51,102,255>>, <<51,204,204>>,
    <<153,204,0>>, <<255,204,0>>, <<255,153,0>>, <<255,102,0>>, <<102,102,153>>, <<150,150,150>>,
    <<0,51,102>>, <<51,153,102>>, <<0,51,0>>, <<51,51,0>>, <<153,51,0>>, <<153,51,102>>,
    <<51,51,153>>, <<51,51,51>>>>
PaletteFor(ver) == IF ver >= 80 THEN Palette8 ELSE IF ver >= 50 THEN Palette5 ELSE SubSeq(Palette8, 1, 16)

\* index -> colour as a function; a palette record overrides from index 8 up
ColourMap(ver, rec) ==
    LET d == PaletteFor(ver)
        n == Len(d)
        dom == (0..(7 + n)) \cup {n + 8, n + 9, 81, 32767} \cup {7 + i : i \in DOMAIN rec}
    IN [i \in dom |-> IF i >= 8 /\ i <= 7 + Len(rec) THEN rec[i - 7]
                      ELSE IF i < 8 THEN Fixed8[i + 1]
                      ELSE IF i <= 7 + n THEN d[i - 7]
                      ELSE <<>>]              \* unknown
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
\* the indexes whose colour is closest to rgb
NearestIdx(map, rgb) ==
    LET known == {i \in DOMAIN map : map[i] # <<>>}
        best == CHOOSE m \in {Dist(map[i], rgb) : i \in known} : \A i \in known : m <= Dist(map[i], rgb)
    IN {i \in known : Dist(map[i], rgb) = best}
=============================================================================
