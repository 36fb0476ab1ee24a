------------------------------- MODULE MCArith -------------------------------
(* A machine that shifts tokens on a stack and reduces them to values, as a *)
(* table-driven parser does, against the reading of the whole text; and a   *)
(* tree that is built first and computed afterwards.  Tokens arrive one by  *)
(* one, in every order.                                                     *)
EXTENDS Arith, TLC

CONSTANT MaxTokens

Nums == {<<50>>, <<48, 55>>, <<48>>}
Ops == {<<OPEN>>, <<CLOSE>>, <<STAR>>, <<PLUS>>, <<DASH>>, <<SLASH>>}

VARIABLES toks,    \* tokens read
          stack,   \* symbols: [k |-> "tok", c], or [k |-> "num"|"term"|"prod"|"sum", v]
          look,    \* the token looked at, or <<>>
          st       \* "run", "ok", "bad", "wild"
vars == <<toks, stack, look, st>>

Init == toks = <<>> /\ stack = <<>> /\ look = <<>> /\ st = "run"

Top1(n) == stack[Len(stack) - n]
Is(n, c) == Len(stack) > n /\ Top1(n).k = "tok" /\ Top1(n).c = c
Kind(n, k) == Len(stack) > n /\ Top1(n).k = k
Below(n) == SubSeq(stack, 1, Len(stack) - n)
(* A minus before a number: nothing a minus could subtract from is below it. *)
UnaryAt(n) == Is(n, DASH) /\ ~Kind(n + 1, "sum")

Push(n, k, v) == stack' = Append(Below(n), [k |-> k, v |-> v]) /\ UNCHANGED <<toks, look, st>>
Become(n, k, r) == IF r.st = "ok" THEN Push(n, k, r.v) ELSE st' = r.st /\ UNCHANGED <<toks, stack, look>>
IsNum(t) == t # <<>> /\ IsDigit(Head(t))
End == <<0>>

Fetch ==
  /\ st = "run" /\ look = <<>>
  /\ \/ \E t \in Nums \cup Ops :
          /\ Len(toks) < MaxTokens
          (* two numbers in a row would be one *)
          /\ toks' = Append(toks, t) /\ look' = t
     \/ toks' = toks /\ look' = End
  /\ UNCHANGED <<stack, st>>

WantsTerm == IF stack = <<>> THEN TRUE ELSE Top1(0).k = "tok" /\ Top1(0).c # CLOSE
Shift ==
  /\ st = "run" /\ look \notin {<<>>, End}
  /\ \/ IsNum(look) /\ WantsTerm
        /\ stack' = Append(stack, [k |-> "num", v |-> Number(look, 1).v])
     \/ look = <<OPEN>> /\ WantsTerm /\ ~UnaryAt(0)
        /\ stack' = Append(stack, [k |-> "tok", c |-> OPEN])
     \/ look = <<DASH>> /\ (Kind(0, "sum") \/ (WantsTerm /\ ~UnaryAt(0)))
        /\ stack' = Append(stack, [k |-> "tok", c |-> DASH])
     \/ look = <<PLUS>> /\ Kind(0, "sum") /\ stack' = Append(stack, [k |-> "tok", c |-> PLUS])
     \/ look \in {<<STAR>>, <<SLASH>>} /\ Kind(0, "prod")
        /\ stack' = Append(stack, [k |-> "tok", c |-> look[1]])
     \/ look = <<CLOSE>> /\ Kind(0, "sum") /\ Is(1, OPEN)
        /\ stack' = Append(stack, [k |-> "tok", c |-> CLOSE])
  /\ look' = <<>> /\ UNCHANGED <<toks, st>>

Reduce ==
  /\ st = "run" /\ look # <<>>
  /\ CASE Kind(0, "num") -> (IF UnaryAt(1) THEN Become(2, "term", Got(Neg(Top1(0).v), 0)) ELSE Push(1, "term", Top1(0).v))
       [] Kind(0, "term") ->
            (IF Is(1, STAR) \/ Is(1, SLASH)
             THEN Become(3, "prod", Apply(Top1(1).c, Top1(2).v, Top1(0).v, 0))
             ELSE Push(1, "prod", Top1(0).v))
       [] (Kind(0, "prod") /\ look \notin {<<STAR>>, <<SLASH>>}) ->
            (IF Kind(2, "sum") /\ (Is(1, PLUS) \/ Is(1, DASH))
             THEN Become(3, "sum", Apply(Top1(1).c, Top1(2).v, Top1(0).v, 0))
             ELSE Push(1, "sum", Top1(0).v))
       [] OTHER -> FALSE
Close ==
  /\ st = "run" /\ Is(0, CLOSE)
  /\ stack' = Append(Below(3), [k |-> "term", v |-> Top1(1).v]) /\ UNCHANGED <<toks, look, st>>
Accept == st = "run" /\ look = End /\ Len(stack) = 1 /\ Kind(0, "sum") /\ st' = "ok" /\ UNCHANGED <<toks, stack, look>>
Moves == (ENABLED Shift) \/ (ENABLED Reduce) \/ (ENABLED Close) \/ (ENABLED Accept)
Fail == st = "run" /\ look # <<>> /\ ~Moves /\ st' = "bad" /\ UNCHANGED <<toks, stack, look>>
Next == Fetch \/ Shift \/ Reduce \/ Close \/ Accept \/ Fail
Spec == Init /\ [][Next]_vars

RECURSIVE Spell(_, _)
Spell(ts, gap) == IF ts = <<>> THEN gap ELSE gap \o Head(ts) \o Spell(Tail(ts), gap)
Apart == \A j \in 1..(Len(toks) - 1) : ~(IsNum(toks[j]) /\ IsNum(toks[j + 1]))

(* The two agree, whatever the spacing. *)
Whole == LET r == Read(Spell(toks, <<SP>>))
         IN CASE st = "ok" -> r = Outcome("ok", Top1(0).v)
              [] st \in {"bad", "wild"} -> r = Outcome(st, Zero)
              [] OTHER -> TRUE
Spacing == Apart => /\ Read(Spell(toks, <<>>)) = Read(Spell(toks, <<SP>>))
                    /\ Read(Spell(toks, <<SP, SP>>)) = Read(Spell(toks, <<SP>>))
(* Parentheses around the whole change nothing. *)
Around == LET s == Spell(toks, <<SP>>)
          IN Read(s).st = "ok" => Read(<<OPEN>> \o s \o <<CLOSE>>) = Read(s)
=============================================================================
