------------------------------- MODULE BigInt --------------------------------
(* Integers of any size, as a sign and decimal digits: the checker's own    *)
(* numbers end at 32 bits.  A magnitude is its digits, the first one not 0; *)
(* zero is <<>>.  An integer is [neg, ds]; zero is not negative.            *)
EXTENDS Integers, Sequences

RECURSIVE Strip(_)
Strip(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN Strip(Tail(ds)) ELSE ds

(* The k-th digit from the right, counting from 0. *)
Dig(a, k) == IF k < Len(a) THEN a[Len(a) - k] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

Less(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \E j \in 1..Len(a) : a[j] < b[j] /\ \A i \in 1..(j - 1) : a[i] = b[i]

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, k, carry, acc) ==
  IF k >= Max2(Len(a), Len(b)) THEN (IF carry = 0 THEN acc ELSE <<carry>> \o acc)
  ELSE LET s == Dig(a, k) + Dig(b, k) + carry IN AddFrom(a, b, k + 1, s \div 10, <<s % 10>> \o acc)
MagAdd(a, b) == AddFrom(a, b, 0, 0, <<>>)

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, k, borrow, acc) ==
  IF k >= Len(a) THEN Strip(acc)
  ELSE LET s == Dig(a, k) - Dig(b, k) - borrow
       IN SubFrom(a, b, k + 1, IF s < 0 THEN 1 ELSE 0, <<s % 10>> \o acc)
(* b at most a *)
MagSub(a, b) == SubFrom(a, b, 0, 0, <<>>)

RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > k THEN 0 ELSE Dig(a, i) * Dig(b, k - i) + Column(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(a, b, k, carry, acc) ==
  IF k >= Len(a) + Len(b) THEN Strip(acc)
  ELSE LET s == Column(a, b, k, 0) + carry IN MulFrom(a, b, k + 1, s \div 10, <<s % 10>> \o acc)
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, 0, 0, <<>>)

RECURSIVE Times(_, _, _)
(* How often b goes into r, and what is left. *)
Times(r, b, q) == IF Less(r, b) THEN <<q, r>> ELSE Times(MagSub(r, b), b, q + 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, j, r, acc) ==
  IF j > Len(a) THEN Strip(acc)
  ELSE LET t == Times(Strip(r \o <<a[j]>>), b, 0) IN DivFrom(a, b, j + 1, t[2], acc \o <<t[1]>>)
MagDiv(a, b) == DivFrom(a, b, 1, <<>>, <<>>)

Num(neg, ds) == [neg |-> neg /\ ds # <<>>, ds |-> ds]
Neg(x) == Num(~x.neg, x.ds)
Add(x, y) == IF x.neg = y.neg THEN Num(x.neg, MagAdd(x.ds, y.ds))
             ELSE IF Less(x.ds, y.ds) THEN Num(y.neg, MagSub(y.ds, x.ds))
             ELSE Num(x.neg, MagSub(x.ds, y.ds))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Num(x.neg # y.neg, MagMul(x.ds, y.ds))
(* Toward zero. *)
Div(x, y) == Num(x.neg # y.neg, MagDiv(x.ds, y.ds))

(* 2^63 - 1, and whether a number fits 64 bits. *)
Top == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
Fits64(x) == ~Less(IF x.neg THEN MagAdd(Top, <<1>>) ELSE Top, x.ds)

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE DigitsOf(n \div 10) \o <<n % 10>>
OfInt(n) == Num(n < 0, DigitsOf(IF n < 0 THEN -n ELSE n))
=============================================================================
