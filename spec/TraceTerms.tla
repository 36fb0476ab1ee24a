----------------------------- MODULE TraceTerms ------------------------------
(* Traces of the two middle stages of the compiler: expansion of a program  *)
(* and type checking of a grammar.  One event per case:                     *)
(*   [ev |-> "expand", t |-> term, r |-> outcome]                           *)
(*   [ev |-> "check",  t |-> term, r |-> outcome]                           *)
EXTENDS TraceBase, Reduce, Types, Messages

Fuel == 80

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]

(* A recorded typed term: arrays of characters stand for sets.              *)
RECURSIVE Typed(_)
Typed(x) ==
  LET ty == [null |-> x.ty.null, first |-> SetOf(x.ty.first), flast |-> SetOf(x.ty.flast)]
  IN CASE x.k \in {"eps", "lit", "var"} -> [x EXCEPT !.ty = ty]
       [] x.k \in {"cat", "alt"} -> [x EXCEPT !.ty = ty, !.es = Now([j \in 1..Len(x.es) |-> Typed(x.es[j])])]
       [] x.k = "fix" -> [x EXCEPT !.ty = ty, !.e = Typed(x.e)]
(* Without names. *)
RECURSIVE Bare(_)
Bare(x) ==
  CASE x.k = "eps" -> [k |-> "eps", ty |-> x.ty]
    [] x.k = "lit" -> [k |-> "lit", ty |-> x.ty, s |-> x.s]
    [] x.k = "var" -> [k |-> "var", ty |-> x.ty, i |-> x.i]
    [] x.k \in {"cat", "alt"} -> [k |-> x.k, ty |-> x.ty, es |-> Now([j \in 1..Len(x.es) |-> Bare(x.es[j])])]
    [] x.k = "fix" -> [k |-> "fix", ty |-> x.ty, e |-> Bare(x.e)]

ExpandAgrees(want, got) ==
  \/ want.st = "div"
  \/ /\ want.st = got.st
     /\ want.st = "ok" => Erase(want.t) = Erase(got.t) /\ Expanded(got.t)
     /\ want.st = "err" => /\ want.e = got.e
                           /\ want.e = "arity" => want.want = got.want /\ want.have = got.have
CheckAgrees(want, got) ==
  /\ want.st = got.st
  /\ want.st = "ok" => Bare(want.tt) = Bare(Typed(got.tt))
  /\ want.st = "err" => want.e = got.e

(* C11: the names that reach the result. *)
RECURSIVE Named(_)
Named(x) ==
  CASE x.k = "eps" -> [k |-> "eps", n |-> x.n]
    [] x.k = "lit" -> [k |-> "lit", n |-> x.n]
    [] x.k = "var" -> [k |-> "var", n |-> x.n]
    [] x.k \in {"cat", "alt"} -> [k |-> x.k, n |-> x.n, es |-> Now([j \in 1..Len(x.es) |-> Named(x.es[j])])]
    [] x.k = "fix" -> [k |-> "fix", n |-> x.n, e |-> Named(x.e)]
ExpandNames(want, got) ==
  want.st = "ok" /\ got.st = "ok" /\ Erase(want.t) = Erase(got.t) => EraseSpans(want.t) = EraseSpans(got.t)
(* C18: what is said of a rejection. *)
Explained(want, got) == want.st = "err" /\ got.st = "err" /\ want.e = got.e => Told(want, got)
CheckNames(want, got) ==
  want.st = "ok" /\ got.st = "ok" => Named(want.tt) = Named(got.tt)

Init == case \in 1..Len(Trace) /\ stage = "given"

Expansion ==
  /\ stage = "given" /\ Ev.ev = "expand"
  /\ LET want == Expand(Ev.t, Fuel)
     IN IF (CASE Facet = "C11" -> ExpandNames(want, Ev.r) [] Facet = "C18" -> Explained(want, Ev.r) [] OTHER -> ExpandAgrees(want, Ev.r)) THEN stage' = (IF want.st = "div" THEN "skipped" ELSE "explained")
        ELSE Report(case, want) /\ stage' = "rejected"
  /\ UNCHANGED case
Checking ==
  /\ stage = "given" /\ Ev.ev = "check"
  /\ LET want == TypeOf(Ev.t)
     IN IF (CASE Facet = "C11" -> CheckNames(want, Ev.r) [] Facet = "C18" -> Explained(want, Ev.r) [] OTHER -> CheckAgrees(want, Ev.r)) THEN stage' = "explained"
        ELSE Report(case, want) /\ stage' = "rejected"
  /\ UNCHANGED case
Next == Expansion \/ Checking
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
