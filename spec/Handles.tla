------------------------------- MODULE Handles -------------------------------
(* What opening a workbook holds on to: the file's descriptor and its memory
   map, step by step, and where a failure leaves them.
   route "path", "mmap" or "contents"; box "bare", "whole" (stream in one
   piece of the container) or "pieces"; fails: the step that fails, or "no". *)
EXTENDS Common
Routes == {"path", "mmap", "contents"}
Boxes == {"bare", "whole", "pieces"}
StepsOf == <<"inspect", "obtain", "locate", "header", "sheets">>
(* a step applies to a scenario ... *)
Applies(route, box, lazy, f) ==
  CASE f = "obtain" -> route # "contents"
    [] f = "locate" -> box # "bare"
    [] OTHER -> TRUE
Fresh == [at |-> 0, fd |-> 0, map |-> 0, result |-> "running"]
Running(st) == st.result = "running"
Step(st, route, box, lazy, fails) ==
  LET name == StepsOf[st.at + 1]
      abort == [at |-> st.at + 1, fd |-> 0, map |-> 0, result |-> "failed"]
      n == [st EXCEPT !.at = @ + 1]
  IN IF fails = name /\ ~(name = "sheets" /\ lazy) THEN abort
     ELSE CASE name = "inspect" -> n                  \* opened, peeked at, closed
            [] name = "obtain" -> IF route = "mmap" THEN [n EXCEPT !.map = 1] ELSE n
            [] name = "locate" -> IF box = "pieces" THEN [n EXCEPT !.map = 0] ELSE n
            [] name = "header" -> IF lazy THEN [n EXCEPT !.result = "open"] ELSE n
            [] name = "sheets" -> [n EXCEPT !.map = 0, !.result = "loaded"]
Release(st) == [st EXCEPT !.map = 0, !.result = "released"]
(* how the open ends *)
RECURSIVE EndOf(_, _, _, _, _)
EndOf(st, route, box, lazy, fails) == IF Running(st) THEN EndOf(Step(st, route, box, lazy, fails), route, box, lazy, fails) ELSE st
=============================================================================
