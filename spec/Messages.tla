------------------------------ MODULE Messages -------------------------------
(* What the text of a diagnostic has to say.  x is a rejection as in        *)
(* Compile: e, and by kind nm, ix (the variable) or want, have.             *)
(*                                                                          *)
(* The texts are not laid down word for word; each has to name the rule     *)
(* that is broken and the facts of the case, and no two rules may be given  *)
(* the same words.                                                          *)
EXTENDS Integers, Sequences

Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
IsDigit(c) == c \in 48..57
RECURSIVE Decimal(_), NumbersFrom(_, _, _)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
(* The numbers in a text, in order; cur: the one being read, or -1. *)
NumbersFrom(m, p, cur) ==
  IF p > Len(m) THEN (IF cur < 0 THEN <<>> ELSE <<cur>>)
  ELSE IF IsDigit(m[p]) THEN NumbersFrom(m, p + 1, (IF cur < 0 THEN 0 ELSE cur * 10) + m[p] - 48)
  ELSE (IF cur < 0 THEN <<>> ELSE <<cur>>) \o NumbersFrom(m, p + 1, -1)
Numbers(m) == NumbersFrom(m, 1, -1)

(* Words, as code points. *)
wUndeclared == <<117, 110, 100, 101, 99, 108, 97, 114, 101, 100>>
wUnbound == <<117, 110, 98, 111, 117, 110, 100>>
wGuarded == <<103, 117, 97, 114, 100, 101, 100>>
wFirst == <<102, 105, 114, 115, 116>>
wFunction == <<102, 117, 110, 99, 116, 105, 111, 110>>
wConcatenation == <<99, 111, 110, 99, 97, 116, 101, 110, 97, 116, 105, 111, 110>>
wNullable == <<110, 117, 108, 108, 97, 98, 108, 101>>
wOverlap == <<111, 118, 101, 114, 108, 97, 112>>
wFlast == <<102, 108, 97, 115, 116>>
wBranches == <<98, 114, 97, 110, 99, 104, 101, 115>>
wCall == <<99, 97, 108, 108>>
wLambda == <<108, 97, 109, 98, 100, 97>>
wLet == <<108, 101, 116>>
wUnexpected == <<117, 110, 101, 120, 112, 101, 99, 116, 101, 100>>

Words(e) ==
  CASE e = "undeclared" -> {wUndeclared}
    [] e = "free" -> {wUnbound}
    [] e = "guarded" -> {wGuarded}
    [] e = "notfun" -> {wCall, wFunction}
    [] e = "arity" -> {wFunction}
    [] e = "cat_null" -> {wFirst, wConcatenation, wNullable}
    [] e = "cat_overlap" -> {wFirst, wOverlap, wFlast}
    [] e = "alt_null" -> {wBranches, wNullable}
    [] e = "alt_overlap" -> {wFirst, wBranches, wOverlap}
    [] e = "call" -> {wUnexpected, wCall}
    [] e = "lam" -> {wUnexpected, wLambda}
    [] e = "let" -> {wUnexpected, wLet}
    [] e = "fix" -> {wLambda}

Says(x, m) ==
  /\ m # <<>>
  /\ \A word \in Words(x.e) : Within(word, m)
  /\ x.e \in {"undeclared", "free", "guarded"} =>
       Within(IF x.nm = <<>> THEN Decimal(x.ix) ELSE x.nm, m)
  (* how many are taken, then how many were given *)
  /\ x.e = "arity" => Numbers(m) = <<x.want, x.have>>
(* Both ways a diagnostic is shown. *)
Told(x, r) == Says(x, r.msg) /\ r.syn = r.msg
=============================================================================
