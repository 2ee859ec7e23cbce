------------------------------ MODULE Encoding ------------------------------
(* Which encoding applies to text stored as bytes.  The machine reads the
   workbook header record by record: a code page record may come after the
   user name, whose bytes then wait until the encoding is known.  What a codec
   makes of given bytes is the environment's: every text comes with its
   decodings.                                                                *)
EXTENDS Common

PageName == (1200 :> "utf_16_le") @@ (10000 :> "mac_roman") @@ (10006 :> "mac_greek") @@ (10007 :> "mac_cyrillic") @@ (10029 :> "mac_latin2")
            @@ (10079 :> "mac_iceland") @@ (10081 :> "mac_turkish") @@ (32768 :> "mac_roman") @@ (32769 :> "cp1252")
OfPage(p) == IF p \in DOMAIN PageName THEN PageName[p] ELSE "cp" \o ToString(p)
DefaultCodec == "iso-8859-1"
\* page = 0: no code page record
Codec(override, page) == IF override # "" THEN override ELSE IF page = 0 THEN DefaultCodec ELSE OfPage(page)

\* a text item is shown as (what travels with a text, its formatting runs and
\* phonetic data, is no part of it, wherever it is stored)
Shown(ver, override, page, t) == IF ver >= 80 THEN t.u ELSE t.under[Codec(override, page)]

(* The reading order: nothing is ever decoded with a codec that a later
   record would have changed.                                                *)
Enc0 == [page |-> 0, waiting |-> <<>>, done |-> <<>>]
Flush(st, ver, override) == [st EXCEPT !.done = st.done \o [i \in DOMAIN st.waiting |-> Shown(ver, override, st.page, st.waiting[i])], !.waiting = <<>>]
Read(st, e, ver, override) ==
    CASE e.op = "codepage" -> [st EXCEPT !.page = e.page]
      [] e.op = "text" -> [st EXCEPT !.waiting = Append(st.waiting, e)]
      [] OTHER -> st
=============================================================================
