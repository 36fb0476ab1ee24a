-------------------------------- MODULE Arith --------------------------------
(* Arithmetic expressions as the benchmark suite has them: non-negative     *)
(* numbers, a minus before a number, + - * / and parentheses, with spaces   *)
(* anywhere but inside a number.  Products before sums, each from the left. *)
(* Reading goes left to right and computes as it goes; it ends well ("ok"), *)
(* at a text that is no expression ("bad"), or at a number that does not    *)
(* fit 64 bits or a division by zero ("wild": nothing is promised).         *)
EXTENDS BigInt

SP == 32  OPEN == 40  CLOSE == 41  STAR == 42  PLUS == 43  DASH == 45  SLASH == 47
IsDigit(c) == c \in 48..57

At(w, p) == IF p <= Len(w) THEN w[p] ELSE 0
RECURSIVE Gap(_, _), Run(_, _)
Gap(w, p) == IF At(w, p) = SP THEN Gap(w, p + 1) ELSE p
Run(w, p) == IF IsDigit(At(w, p)) THEN Run(w, p + 1) ELSE p

Zero == Num(FALSE, <<>>)
Stop(st) == [st |-> st, v |-> Zero, p |-> 0]
Got(v, p) == IF Fits64(v) THEN [st |-> "ok", v |-> v, p |-> p] ELSE Stop("wild")

Number(w, p) ==
  LET q == Run(w, p)
  IN IF q = p THEN Stop("bad")
     ELSE Got(Num(FALSE, Strip([j \in 1..(q - p) |-> w[p + j - 1] - 48])), Gap(w, q))

Apply(op, x, y, p) ==
  CASE op = PLUS  -> Got(Add(x, y), p)
    [] op = DASH  -> Got(Sub(x, y), p)
    [] op = STAR  -> Got(Mul(x, y), p)
    [] op = SLASH -> IF y = Zero THEN Stop("wild") ELSE Got(Div(x, y), p)

RECURSIVE Sum(_, _), Sums(_, _), Product(_, _), Products(_, _), Term(_, _)
Term(w, p) ==
  CASE At(w, p) = DASH -> LET n == Number(w, Gap(w, p + 1)) IN IF n.st = "ok" THEN Got(Neg(n.v), n.p) ELSE n
    [] At(w, p) = OPEN -> LET e == Sum(w, Gap(w, p + 1))
                          IN IF e.st # "ok" THEN e
                             ELSE IF At(w, e.p) = CLOSE THEN Got(e.v, Gap(w, e.p + 1)) ELSE Stop("bad")
    [] OTHER -> Number(w, p)
Products(w, x) ==
  IF x.st # "ok" \/ At(w, x.p) \notin {STAR, SLASH} THEN x
  ELSE LET y == Term(w, Gap(w, x.p + 1))
       IN IF y.st # "ok" THEN y ELSE Products(w, Apply(At(w, x.p), x.v, y.v, y.p))
Product(w, p) == Products(w, Term(w, p))
Sums(w, x) ==
  IF x.st # "ok" \/ At(w, x.p) \notin {PLUS, DASH} THEN x
  ELSE LET y == Product(w, Gap(w, x.p + 1))
       IN IF y.st # "ok" THEN y ELSE Sums(w, Apply(At(w, x.p), x.v, y.v, y.p))
Sum(w, p) == Sums(w, Product(w, p))

Outcome(st, v) == [st |-> st, neg |-> v.neg, ds |-> v.ds]
Read(w) ==
  LET e == Sum(w, Gap(w, 1))
  IN IF e.st # "ok" THEN Outcome(e.st, Zero)
     ELSE IF e.p = Len(w) + 1 THEN Outcome("ok", e.v) ELSE Outcome("bad", Zero)
=============================================================================
