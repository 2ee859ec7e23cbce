----------------------------- MODULE EncodingMC -----------------------------
(* All headers built from: an override or none, a code page or none, and where
   the code page record stands relative to the user name and other texts.
   Decoding when complete equals decoding each text with the workbook's codec,
   whatever the order.                                                       *)
EXTENDS Encoding
CONSTANTS Export
Vers == {80, 70, 50, 40, 30, 21}
Overrides == {"", "koi8_r", "utf_8", "cp1251", "cp932", "iso-8859-1"}
Pages == {0, 367, 437, 874, 932, 936, 949, 950, 1250, 1251, 1252, 1253, 1255, 1361, 10000, 10006, 10007, 10029, 10079, 10081, 32768, 32769}
Under == [c \in {"", DefaultCodec, "koi8_r", "utf_8", "cp1251", "cp932"} \cup {OfPage(p) : p \in Pages \ {0}} |-> c]
VARIABLES ver, ov, page, todo, seen, st
vars == <<ver, ov, page, todo, seen, st>>
Init == /\ ver \in Vers /\ ov \in Overrides /\ page \in IF ver >= 80 THEN {0, 1200, 1252, 1, 21010, 65001} ELSE Pages \* version 8 text is UTF-16 whatever the page
        /\ todo = {"user", "other"} \cup (IF page = 0 THEN {} ELSE {"codepage"}) /\ seen = <<>> /\ st = Enc0
\* only the user name may come before the code page record
May(k) == k \in todo /\ (k = "other" => "codepage" \notin todo)
Event(k) == IF k = "codepage" THEN [op |-> "codepage", page |-> page] ELSE [op |-> "text", u |-> "u", under |-> Under]
Next == \E k \in todo : /\ May(k) /\ todo' = todo \ {k} /\ seen' = Append(seen, k)
                        /\ st' = LET s == Read(st, Event(k), ver, ov) IN IF todo = {k} THEN Flush(s, ver, ov) ELSE s
                        /\ UNCHANGED <<ver, ov, page>>
Spec == Init /\ [][Next]_vars
OneCodec == todo = {} => \A i \in DOMAIN st.done : st.done[i] = IF ver >= 80 THEN "u" ELSE Codec(ov, page)
Exported == (Export /\ todo = {}) => PrintT("S|" \o ToJson([ver |-> ver, ov |-> ov, page |-> page, order |-> seen]))
=============================================================================
