------------------------------- MODULE NotesMC -------------------------------
(* All interleavings of up to MaxLen object/text/note records over two objects
   and two cells.  A note never shows a text other than that of the last text
   object recorded for the drawing object it names.                          *)
EXTENDS Notes
CONSTANTS MaxLen, Export
VARIABLES st, hist
vars == <<st, hist>>
Opt == [ver |-> 80]
Cmo(ty, id) == <<21, 0, 18, 0, ty, 0, id, 0, 17, 64>> \o Rep(0, 12)
Text1(n) == <<<<0, 64 + n, 66>>>>
Alphabet == {[op |-> "obj", b |-> Cmo(25, id) \o <<0, 0, 0, 0>>] : id \in {1, 2}}
            \cup {[op |-> "obj", b |-> <<1, 0, 0, 0, 7, 0, 1, 0>>]}
            \cup {[op |-> "txo", n |-> 2, text |-> <<<<0, 88, 89>>>>, runs |-> <<<<0, 0, 5, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0>>>>]}
            \cup {[op |-> "note", r |-> r, c |-> 0, fl |-> 2, id |-> id, a |-> <<65>>] : r \in {0, 1}, id \in {1, 2}}
Init == st = Start0 /\ hist = <<>>
\* every text object is given its own text so that a mix-up is visible
Stamp(e, n) == IF e.op = "txo" THEN [e EXCEPT !.text = Text1(n)] ELSE e
\* a note names an object whose text has been recorded
Legal(e) == e.op = "note" => e.id \in DOMAIN st.txt
Next == /\ Len(hist) < MaxLen
        /\ \E e \in Alphabet : /\ Legal(e)
             /\ LET x == Stamp(e, Len(hist) + 1) IN st' = Apply(st, x, Opt) /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_vars
\* the text of object id is that of a txo directly preceded (among object and
\* text records) by an object record with that id
OwnText == \A id \in DOMAIN st.txt :
    \E j \in DOMAIN hist : /\ hist[j].op = "txo" /\ Chars(hist[j].text, 2) = st.txt[id].u
       /\ \E k \in 1..(j - 1) : /\ hist[k].op = "obj" /\ ObjId(hist[k].b) = id
                                /\ \A m \in (k + 1)..(j - 1) : hist[m].op = "note"
NotesFrozen == [][\A k \in DOMAIN st.notes : st'.notes[k] # st.notes[k] => hist'[Len(hist')].op = "note"]_vars
Exported == (Export /\ Len(hist) = MaxLen /\ st.notes # <<>>) => PrintT("S|" \o ToJson(hist))
=============================================================================
