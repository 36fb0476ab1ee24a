------------------------------- MODULE Reduce -------------------------------
(* Expansion of lets and calls (stage 2 of the compiler).                   *)
(*                                                                          *)
(* Expand is the reference: call-by-name, left to right, under fixed points *)
(* but not under unapplied lambdas.  A result is                            *)
(*   [st |-> "ok",  t |-> term]                                             *)
(*   [st |-> "err", e |-> "notfun", sp |-> span of the call]                *)
(*   [st |-> "err", e |-> "arity", want, have, sp]                          *)
(*   [st |-> "div"]        fuel (number of nested contractions) ran out     *)
EXTENDS Core

Ok(t)      == [st |-> "ok", t |-> t]
NotFun(sp) == [st |-> "err", e |-> "notfun", sp |-> sp]
Arity(want, have, sp) ==
  [st |-> "err", e |-> "arity", want |-> want, have |-> have, sp |-> sp]
Div        == [st |-> "div"]

(* One contraction. *)
BetaArgs(lam, args) ==
  Now([j \in 1..Len(args) |-> [args[j] EXCEPT !.n = Merge(args[j].n, lam.ps[j])]])
Beta(lam, args) == SubstAll(lam.e, 0, BetaArgs(lam, args))
Inline(t) == SubstAll(t.e, 0, <<t.b>>)

RECURSIVE Expand(_, _), ExpandSeq(_, _, _, _)
Expand(t, fuel) ==
  CASE t.k \in {"eps", "lit", "var", "lam"} -> Ok(t)
    [] t.k \in {"cat", "alt"} ->
         LET r == ExpandSeq(t.es, 1, fuel, <<>>)
         IN IF r.st = "ok" THEN Ok([t EXCEPT !.es = r.es]) ELSE r
    [] t.k = "fix" ->
         LET r == Expand(t.e, fuel)
         IN IF r.st # "ok" THEN r
            ELSE IF r.t.k # "lam" THEN Ok([t EXCEPT !.e = r.t])
            ELSE LET b == Expand(r.t.e, fuel)
                 IN IF b.st # "ok" THEN b
                    ELSE Ok([t EXCEPT !.e = [r.t EXCEPT !.e = b.t]])
    [] t.k = "call" ->
         LET f == Expand(t.f, fuel)
         IN IF f.st # "ok" THEN f
            ELSE IF f.t.k # "lam" THEN NotFun(t.sp)
            ELSE IF Len(f.t.ps) # Len(t.as) THEN Arity(Len(f.t.ps), Len(t.as), t.sp)
            ELSE IF fuel = 0 THEN Div
            ELSE LET r == Expand(Beta(f.t, t.as), fuel - 1)
                 IN IF r.st # "ok" THEN r
                    ELSE Ok([r.t EXCEPT !.n = Merge3(t.n, f.t.n, r.t.n), !.sp = t.sp])
    [] t.k = "let" ->
         IF fuel = 0 THEN Div
         ELSE LET r == Expand(Inline(t), fuel - 1)
              IN IF r.st # "ok" THEN r
                 ELSE Ok([r.t EXCEPT !.n = Merge(r.t.n, t.n), !.sp = t.sp])
ExpandSeq(es, j, fuel, acc) ==
  IF j > Len(es) THEN [st |-> "ok", es |-> acc]
  ELSE LET r == Expand(es[j], fuel)
       IN IF r.st = "ok" THEN ExpandSeq(es, j + 1, fuel, Append(acc, r.t)) ELSE r

---------------------------------------------------------------------------
(* What expansion must leave behind: no call and no let outside lambdas     *)
(* that are not the body of a fixed point.                                  *)
RECURSIVE Expanded(_)
Expanded(t) ==
  CASE t.k \in {"eps", "lit", "var", "lam"} -> TRUE
    [] t.k \in {"cat", "alt"} -> \A j \in 1..Len(t.es) : Expanded(t.es[j])
    [] t.k = "fix" -> IF t.e.k = "lam" THEN Expanded(t.e.e) ELSE Expanded(t.e)
    [] t.k \in {"call", "let"} -> FALSE
=============================================================================
