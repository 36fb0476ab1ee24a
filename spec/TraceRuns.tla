------------------------------ MODULE TraceRuns ------------------------------
(* Long inputs, recorded by runs (C09):                                     *)
(*   [runs |-> <<[c, n], ...>>, obs |-> <<[line, col, pulled], ...>>]       *)
(* the place reported after each run, and how much had been pulled from the *)
(* source by then.                                                          *)
(* And failures at the end of such an input (C08):                          *)
(*   [runs, kind, part, bad, set, told]  after all but `bad` (the last       *)
(*        run, if there is one) is read: one of set, or the literal part    *)
(*        and set is asked for, or the end.                                 *)
EXTENDS TraceBase, Runs, Naming

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]

Init == case \in 1..Len(Trace) /\ stage = "given"
Right(want) ==
  /\ Len(Ev.obs) = Len(Ev.runs)
  /\ \A k \in 1..Len(Ev.obs) :
       LET o == Ev.obs[k]  read == Length(Ev.runs, k)
       IN o.line = want[k].line /\ o.col = want[k].col /\ o.pulled \in read..(read + 1)
Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
(* The place of the failure. *)
Fault == LET n == Len(Ev.runs) - Len(Ev.bad) IN Places(Ev.runs)[n]
TellsIt(at) ==
  LET t == Ev.told
  IN /\ t.st = "err" /\ t.e = Ev.kind
     /\ t.line = at.line /\ t.col = at.col
     /\ t.at = Digits(at.line) \o <<58>> \o Digits(at.col)
     /\ Within(t.at, t.msg) /\ \A j \in 1..Len(t.q) : Within(t.q[j], t.msg)
     /\ Ev.kind = "branch" => t.got = Ev.bad /\ {t.exp[j] : j \in 1..Len(t.exp)} = {Ev.set[j] : j \in 1..Len(Ev.set)}
     /\ Ev.kind = "string" => t.got = Ev.part \o Ev.bad /\ t.exp = Ev.part \o Ev.set
Tell ==
  /\ stage = "given" /\ "told" \in DOMAIN Ev
  /\ LET at == Fault IN IF TellsIt(at) THEN stage' = "explained" ELSE Report(case, at) /\ stage' = "rejected"
  /\ UNCHANGED case
Follow ==
  /\ stage = "given" /\ "told" \notin DOMAIN Ev
  /\ LET want == Places(Ev.runs)
     IN IF Right(want) THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"
  /\ UNCHANGED case
Next == Follow \/ Tell
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
