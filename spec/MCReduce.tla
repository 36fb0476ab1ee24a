------------------------------ MODULE MCReduce -------------------------------
(* Exhaustive bounded model of expansion: every program up to a size, every *)
(* order of contraction.                                                    *)
EXTENDS ReduceMachine, TermSpace, TLC

CONSTANTS MaxSize, MaxFree, MaxTerm, Fuel

Leaves == {MkLit(<<97>>)}
Space == UNION {Programs(m, f, Leaves) : m \in 1..MaxSize, f \in 0..MaxFree}

Init == orig \in Space /\ t = orig /\ st = "run"
Next == ReduceNext
Spec == Init /\ [][Next]_rvars
Small == Size(t) <= MaxTerm

Reference == Expand(orig, Fuel)
(* Whatever the order, the result is the reference one; an order may meet a *)
(* faulty call sooner than another, but only in a program that has one.     *)
Confluent ==
  /\ st = "ok" => /\ Reference.st = "ok" => Erase(t) = Erase(Reference.t)
                  /\ Reference.st # "err"
  /\ st \in {"notfun", "arity"} => Reference.st # "ok"
LeavesNothing == st = "ok" => Expanded(t)
(* Nothing is captured and nothing escapes. *)
NoNewFree == FreeVars(t, 0) \subseteq FreeVars(orig, 0)
OneByOneIsSimultaneous ==
  \A p \in Reached(t) :
    LET x == At(t, p)
    IN x.k = "call" /\ x.f.k = "lam" /\ Len(x.f.ps) = Len(x.as) =>
         Erase(OneByOne(x.f.e, x.as, Len(x.as))) = Erase(SubstAll(x.f.e, 0, x.as))
ShiftLaws ==
  /\ Erase(Shift(Shift(t, 0, 2), 0, -2)) = Erase(t)
  /\ Erase(SubstAll(Shift(t, 0, 1), 0, <<MkLit(<<98>>)>>)) = Erase(t)
=============================================================================
