------------------------------ MODULE TraceJson ------------------------------
(* Recorded outcomes of the three JSON parsers:                             *)
(*   [ev |-> "json", w, nibble, hand, lalr]  on a document                  *)
(*   [ev |-> "print", v, text, hand, ..]     on what a value prints as      *)
(* each [st |-> "ok", v], [st |-> "err"] or [st |-> "panic"].               *)
EXTENDS TraceBase, Document

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]
Judge(ok, want) == IF ok THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"
Init == case \in 1..Len(Trace) /\ stage = "given"
Given(ev) == stage = "given" /\ Ev.ev = ev /\ UNCHANGED case

Ascii(w) == \A j \in 1..Len(w) : w[j] \in {9, 10, 13} \cup 32..126
OnText ==
  /\ Given("json")
  /\ LET r == Read(Ev.w)
     IN Judge(CASE r.st = "ok"  -> /\ Ev.hand.st = "ok" /\ Ev.hand = Ev.lalr /\ Fits(Ev.hand.v, r.v)
                                   /\ Ascii(Ev.w) => Ev.nibble = Ev.hand
                [] r.st = "bad" -> /\ Ev.nibble.st = "err"
                                   /\ Hopeless(Ev.w) => Ev.hand.st # "ok" /\ Ev.lalr.st # "ok"
                [] r.st = "lone" -> Ev.nibble.st # "ok" /\ Ev.hand.st # "ok" /\ Ev.lalr.st # "ok"
                [] OTHER -> TRUE, r)
Printed ==
  /\ Given("print")
  /\ LET r == IF Ev.text.st = "ok" THEN Read(Ev.text.w) ELSE Outcome("bad", No.v)
     IN Judge(/\ r = Outcome("ok", Ev.v)
              /\ Ev.hand = r
              /\ "nibble" \in DOMAIN Ev => Ev.nibble = r /\ Ev.lalr = r, r)
Next == OnText \/ Printed
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
