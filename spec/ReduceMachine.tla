---------------------------- MODULE ReduceMachine ----------------------------
(* Expansion as a transition system: one let or call is contracted per      *)
(* step, in any order among those that are reached (not inside a definition,*)
(* an argument, or an unapplied function, all of which are call-by-name).   *)
EXTENDS Reduce

VARIABLES orig, t, st
rvars == <<orig, t, st>>

(* Positions are paths of child numbers.                                    *)
RECURSIVE Reached(_)
Reached(x) ==
  CASE x.k \in {"eps", "lit", "var", "lam"} -> {}
    [] x.k \in {"cat", "alt"} ->
         UNION {{<<j>> \o p : p \in Reached(x.es[j])} : j \in 1..Len(x.es)}
    [] x.k = "fix" ->
         IF x.e.k = "lam" THEN {<<1, 1>> \o p : p \in Reached(x.e.e)}
         ELSE {<<1>> \o p : p \in Reached(x.e)}
    [] x.k = "call" ->
         LET inner == {<<0>> \o p : p \in Reached(x.f)}
         IN IF inner = {} THEN {<<>>} ELSE inner
    [] x.k = "let" -> {<<>>}

RECURSIVE At(_, _)
At(x, p) ==
  IF p = <<>> THEN x
  ELSE IF x.k = "call" THEN At(x.f, Tail(p))
  ELSE IF x.k \in {"fix", "lam"} THEN At(x.e, Tail(p))
  ELSE At(x.es[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(x, p, y) ==
  IF p = <<>> THEN y
  ELSE IF x.k = "call" THEN [x EXCEPT !.f = Put(@, Tail(p), y)]
  ELSE IF x.k \in {"fix", "lam"} THEN [x EXCEPT !.e = Put(@, Tail(p), y)]
  ELSE [x EXCEPT !.es[Head(p)] = Put(@, Tail(p), y)]

Contract(p) ==
  LET x == At(t, p)
  IN IF x.k = "let" THEN t' = Put(t, p, Inline(x)) /\ UNCHANGED <<orig, st>>
     ELSE IF x.f.k # "lam" THEN st' = "notfun" /\ UNCHANGED <<orig, t>>
     ELSE IF Len(x.f.ps) # Len(x.as) THEN st' = "arity" /\ UNCHANGED <<orig, t>>
     ELSE t' = Put(t, p, Beta(x.f, x.as)) /\ UNCHANGED <<orig, st>>
ContractLet == st = "run" /\ \E p \in Reached(t) : At(t, p).k = "let" /\ Contract(p)
ContractCall == st = "run" /\ \E p \in Reached(t) : At(t, p).k = "call" /\ Contract(p)
Finish == st = "run" /\ Reached(t) = {} /\ st' = "ok" /\ UNCHANGED <<orig, t>>
ReduceNext == ContractLet \/ ContractCall \/ Finish

---------------------------------------------------------------------------
(* Substitution one argument at a time, last parameter first, each argument *)
(* lifted over the parameters still to come: the way the code does it.      *)
Lift(a, by) == Shift(a, 0, by)
RECURSIVE OneByOne(_, _, _)
OneByOne(body, args, m) ==
  IF m = 0 THEN body
  ELSE OneByOne(SubstAll(body, 0, <<Lift(args[m], m - 1)>>), args, m - 1)
=============================================================================
