------------------------------- MODULE MCBigInt ------------------------------
(* The integers against the checker's own, and against the laws of numbers  *)
(* where those end.                                                         *)
EXTENDS BigInt, TLC

CONSTANTS Small, Large

Big == {Num(n, Strip(ds)) : n \in BOOLEAN,
        ds \in {Top, MagAdd(Top, <<1>>), MagSub(Top, <<1>>), MagMul(Top, Top), MagMul(Top, <<7>>), <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
                <<9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>, <<3, 0, 3, 7, 0, 0, 0, 4, 9, 9>>, <<1>>, <<1, 0>>, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>}}
       \cup (IF Large THEN {Mul(OfInt(a), Num(FALSE, Top)) : a \in -30..30} ELSE {})

VARIABLES x, y, native
vars == <<x, y, native>>
Init == \/ native = TRUE /\ x \in (-Small)..Small /\ y = 0
        \/ native = FALSE /\ x \in Big \cup {OfInt(a) : a \in -12..12} /\ y = OfInt(0)
Pair == /\ UNCHANGED <<x, native>> /\ y = IF native THEN 0 ELSE OfInt(0)
        /\ IF native THEN y' \in (-Small)..Small ELSE y' \in Big \cup {OfInt(b) : b \in -12..12}
Next == Pair
Spec == Init /\ [][Next]_vars

Abs(n) == IF n < 0 THEN -n ELSE n
Toward(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Native == native =>
  LET a == OfInt(x)  b == OfInt(y)
  IN /\ Add(a, b) = OfInt(x + y) /\ Sub(a, b) = OfInt(x - y) /\ Mul(a, b) = OfInt(x * y)
     /\ y # 0 => Div(a, b) = OfInt(Toward(x, y))
     /\ Less(a.ds, b.ds) = (Abs(x) < Abs(y))
     /\ Fits64(a)
Laws == ~native =>
  /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
  /\ Sub(Add(x, y), y) = x
  /\ y.ds # <<>> => /\ Div(Mul(x, y), y) = x
                    /\ LET r == Sub(x, Mul(Div(x, y), y))
                       IN Less(r.ds, y.ds) /\ (r.ds # <<>> => r.neg = x.neg)
  /\ Mul(x, Add(y, OfInt(3))) = Add(Mul(x, y), Mul(x, OfInt(3)))
Edges == /\ Fits64(Num(FALSE, Top)) /\ ~Fits64(Add(Num(FALSE, Top), OfInt(1)))
         /\ Fits64(Sub(Neg(Num(FALSE, Top)), OfInt(1))) /\ ~Fits64(Sub(Neg(Num(FALSE, Top)), OfInt(2)))
=============================================================================
