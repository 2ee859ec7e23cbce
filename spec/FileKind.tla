------------------------------ MODULE FileKind ------------------------------
(* What kind of file some bytes are, from their start and, for a ZIP archive,
   from its member names (sequences of code units), taken one at a time.     *)
EXTENDS Common
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Normal(u) == [i \in DOMAIN u |-> IF u[i] = 92 THEN 47 ELSE Lower(u[i])]
XLSX == <<120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 120, 109, 108>>
XLSB == <<120, 108, 47, 119, 111, 114, 107, 98, 111, 111, 107, 46, 98, 105, 110>>
ODS == <<99, 111, 110, 116, 101, 110, 116, 46, 120, 109, 108>>
Seen0 == {}
See(seen, u) == LET n == Normal(u) IN
                IF Same(n, XLSX) THEN seen \cup {"xlsx"}
                ELSE IF Same(n, XLSB) THEN seen \cup {"xlsb"}
                ELSE IF Same(n, ODS) THEN seen \cup {"ods"} ELSE seen
ZipKind(seen) == IF "xlsx" \in seen THEN "xlsx" ELSE IF "xlsb" \in seen THEN "xlsb"
                 ELSE IF "ods" \in seen THEN "ods" ELSE "zip"
\* a container may hold the workbook in two generations; the newer one is read
Which(inside) == IF \E i \in DOMAIN inside : inside[i] = "Workbook" THEN "Workbook" ELSE "Book"
Kind(start, seen) == CASE start = "xls" -> "xls" [] start = "zip" -> ZipKind(seen) [] OTHER -> "none"
=============================================================================
