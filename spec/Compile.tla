------------------------------- MODULE Compile -------------------------------
(* The stages of the compiler put together.                                 *)
EXTENDS Syntax, Reduce, Types

(* All at once: where a program ends up. *)
Compile(w, fuel) ==
  LET s == FrontEnd(w)
  IN IF s.st = "syntax" THEN [st |-> "err", e |-> "syntax", sp |-> NoSpan]
     ELSE IF s.st = "undeclared" THEN [st |-> "err", e |-> "undeclared", sp |-> s.sp, nm |-> s.c, ix |-> 0]
     ELSE LET x == Expand(s.t, fuel)
          IN IF x.st = "div" THEN x
             ELSE IF x.st = "err" THEN x
             ELSE TypeOf(x.t)
=============================================================================
