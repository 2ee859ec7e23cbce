------------------------------ MODULE LayoutMC ------------------------------
(* Every sequence of up to MaxLen layout records of an alphabet with one or two
   variants of each kind, per file version.  Checks that different kinds commute
   and that the width and zoom rules stay inside their documented ranges.     *)
EXTENDS Layout
CONSTANTS MaxLen, Part
VARIABLES st, hist, ver
vars == <<st, hist, ver>>
Alphabet(v) == IF Part = "widths" THEN
      {[op |-> "col", c1 |-> 0, c2 |-> 1, w |-> 1000, xf |-> 15, flags |-> 0],
       [op |-> "col", c1 |-> 1, c2 |-> 256, w |-> 2000, xf |-> 16, flags |-> 4098],
       [op |-> "defcol", w |-> 9], [op |-> "std", w |-> 3000],
       [op |-> "gcw", on |-> <<1, 2>>], [op |-> "gcw", on |-> <<0>>],
       [op |-> "drh", h |-> 300, o |-> 5]}
  ELSE (IF v = 80 THEN
      {[op |-> "w2", o |-> 2048 + 694, fr |-> 3, fc |-> 1, gi |-> 64, p |-> 0, n |-> 0],
       [op |-> "w2", o |-> 2048, fr |-> 0, fc |-> 0, gi |-> 10, p |-> 500, n |-> 75],
       [op |-> "w2", o |-> 694, fr |-> 0, fc |-> 0, gi |-> 10, p |-> 80, n |-> 5],
       [op |-> "w2", o |-> 9, fr |-> 0, fc |-> 0, gi |-> 10, p |-> 401, n |-> 400]}
     ELSE {[op |-> "w2old", o |-> 694, fr |-> 3, fc |-> 1, rgb |-> <<0, 0, 0>>],
           [op |-> "w2old", o |-> 2057, fr |-> 3, fc |-> 1, rgb |-> <<200, 10, 60>>]})
     \cup {[op |-> "scl", num |-> 3, den |-> 4], [op |-> "scl", num |-> 1, den |-> 20], [op |-> "scl", num |-> 4, den |-> 1],
       [op |-> "scl", num |-> 1, den |-> 0],
       [op |-> "pane", v |-> 1, h |-> 2, hf |-> 3, vf |-> 4, a |-> 2]}
Opt == [ver |-> ver, fmt |-> TRUE]
Init == st = Start /\ hist = <<>> /\ ver \in {80, 70, 40, 30}
Next == /\ Len(hist) < MaxLen /\ UNCHANGED ver
        /\ \E e \in Alphabet(ver) : st' = Apply(st, e, Opt) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Fold(h) == LET RECURSIVE go(_, _)
               go(s, i) == IF i > Len(h) THEN s ELSE go(Apply(s, h[i], Opt), i + 1)
           IN go(Start, 1)
\* moving a record past one of another kind changes nothing
Commute == \A i \in 1..(Len(hist) - 1) : hist[i].op # hist[i + 1].op =>
    Fold([hist EXCEPT ![i] = hist[i + 1], ![i + 1] = hist[i]]) = st
ZoomRange == /\ Zoom(st)[1] \in 10..400 /\ Zoom(st)[2] \in 10..400
             /\ (st.w2[12] = 0 /\ st.scl = -1) => Zoom(st)[2] = 100
WidthSources == \A c \in {0, 1, 2, 255} : Width(st, c, ver) \in {1000, 2000, 3000, 9 * 256, 2048}
Exported == Len(hist) = MaxLen => PrintT("S|" \o ToJson([ver |-> ver, ev |-> hist]))
=============================================================================
