------------------------------- MODULE Progress -------------------------------
(***************************************************************************)
(* C04: what every iteration over any input looks like.  A stream over len  *)
(* bytes yields messages and errors, at most len/3 + 24 of them (a record   *)
(* takes three bytes; the rest leaves room for errors at the end), then     *)
(* ends, and stays ended.  No step needs more than `cap' bytes of memory.   *)
(* There is no transition for a panic, an abort or a step that does not     *)
(* return.  ULogParser refines this (MCProgress).                           *)
(***************************************************************************)
EXTENDS Integers
CONSTANT Slack
VARIABLES st, fuel
Init(len) == st = "run" /\ fuel = (len \div 3) + Slack
Yield == st = "run" /\ fuel > 0 /\ fuel' = fuel - 1 /\ st' = st
End   == st' = "ended" /\ UNCHANGED fuel
Result(t, mem, cap) ==
  /\ mem <= cap
  /\ CASE t \in {"msg", "err"} -> Yield
       [] t = "end" -> End
       [] OTHER -> FALSE
=============================================================================
