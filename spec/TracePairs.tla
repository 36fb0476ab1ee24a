----------------------------- MODULE TracePairs ------------------------------
(* C17: recorded comparisons.  Events:                                      *)
(*   [ev |-> "pair", a, b, ab, ba, aa, typed, teq, theq]                    *)
(*        two terms compared both ways; if both are accepted, the checked   *)
(*        terms compared and their hashes compared                          *)
(*   [ev |-> "name", a, b, ab, ba, heq, text]                               *)
(*        two names compared, and the first against a string                *)
EXTENDS TraceBase, Core

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]
Judge(ok, want) == IF ok THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"
Init == case \in 1..Len(Trace) /\ stage = "given"
Given(ev) == stage = "given" /\ Ev.ev = ev /\ UNCHANGED case

(* What equality looks at: structure, bindings, literal text and binders.   *)
RECURSIVE Key(_)
Binder(n) == <<n.c, n.k>>
Key(t) ==
  CASE t.k = "eps" -> <<"eps">>
    [] t.k = "lit" -> <<"lit", t.s>>
    [] t.k \in {"cat", "alt"} -> <<t.k, Now([j \in 1..Len(t.es) |-> Key(t.es[j])])>>
    [] t.k = "fix" -> <<"fix", Key(t.e)>>
    [] t.k = "var" -> <<"var", t.i>>
    [] t.k = "call" -> <<"call", Key(t.f), Now([j \in 1..Len(t.as) |-> Key(t.as[j])])>>
    [] t.k = "lam" -> <<"lam", [j \in 1..Len(t.ps) |-> Binder(t.ps[j])], Key(t.e)>>
    [] t.k = "let" -> <<"let", Binder(t.x), Key(t.b), Key(t.e)>>

(* Keys of different shapes cannot be compared as values; compare as text.  *)
Same(a, b) == ToString(Key(a)) = ToString(Key(b))

Pair ==
  /\ Given("pair")
  /\ LET want == Same(Ev.a, Ev.b)
     IN Judge(Ev.ab = want /\ Ev.ba = want /\ Ev.aa /\ (Ev.typed /\ Ev.teq => Ev.theq), want)
Names ==
  /\ Given("name")
  /\ LET want == Ev.a.c = Ev.b.c /\ Ev.a.k = Ev.b.k
     IN Judge(Ev.ab = want /\ Ev.ba = want /\ (want => Ev.heq) /\ Ev.text, want)
Next == Pair \/ Names
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
