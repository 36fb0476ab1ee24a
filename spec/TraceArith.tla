----------------------------- MODULE TraceArith ------------------------------
(* Recorded outcomes of the three arithmetic parsers on one text:           *)
(*   [ev |-> "arith", w, nibble, hand, lalr], each                          *)
(*   [st |-> "ok", neg, ds], [st |-> "err"] or [st |-> "panic"]             *)
EXTENDS TraceBase, Arith

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]
Judge(ok, want) == IF ok THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"

Same(got, want) ==
  CASE want.st = "ok"  -> got.st = "ok" /\ got.neg = want.neg /\ got.ds = want.ds
    [] want.st = "bad" -> got.st = "err"
    [] OTHER -> TRUE
Init == case \in 1..Len(Trace) /\ stage = "given"
Evaluate ==
  /\ stage = "given" /\ UNCHANGED case
  /\ LET want == Read(Ev.w) IN Judge(Same(Ev.nibble, want) /\ Same(Ev.hand, want) /\ Same(Ev.lalr, want), want)
Next == Evaluate
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
