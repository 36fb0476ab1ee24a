----------------------------- MODULE TokenSpace ------------------------------
(* Finite spaces of token sequences.                                        *)
EXTENDS Syntax

TP(kind) == [t |-> kind]
TI(c, s) == [t |-> "id", c |-> c, s |-> s, raw |-> FALSE]
TX == TI(<<120>>, "x")  TY == TI(<<121>>, "y")
TLet == TI(<<108, 101, 116>>, "let")  TMatch == TI(<<109, 97, 116, 99, 104>>, "match")
TUnder == TI(<<95>>, "_")
TA == [t |-> "str", c |-> <<97>>]  TB == [t |-> "str", c |-> <<98>>]

(* (1) Arbitrary sequences in a goal and in a definition.                   *)
Alphabet == {TX, TA, TP("!"), TP("("), TP(")"), TP("."), TP(":"), TP("|"), TP("/")}
Sequences(n) == [1..n -> Alphabet]
InGoal(w) == <<TLet, TX, TP("="), TA, TP(";"), TMatch>> \o w \o <<TP(";")>>
InLet(w) == <<TLet>> \o w \o <<TP(";"), TMatch, TX, TP(";")>>
LetAlphabet == {TX, TY, TA, TP("="), TP("/"), TP("."), TP(";"), TMatch}
LetSequences(n) == [1..n -> LetAlphabet]
(* (2) Well-formed programs by size, written with the fewest parentheses.   *)
(* Levels: 0 expression, 1 alternation, 2 labelled, 3 concatenation,        *)
(* 4 call, 5 term.                                                          *)
Par(own, level, w) == IF own < level THEN <<TP("(")>> \o w \o <<TP(")")>> ELSE w
Ids == {TX, TY}
RECURSIVE Exprs(_, _)
Exprs(n, level) ==
  IF n = 1 THEN {<<TX>>, <<TY>>, <<TA>>, <<TUnder>>}
  ELSE {<<TP("!")>> \o w : w \in Exprs(n - 1, 5)}
       (* a label on a label is another one *)
       \cup {Par(2, level, w \o <<TP(":"), IF n % 2 = 0 THEN TY ELSE TX>>) : w \in Exprs(n - 1, 3)}
       \cup {Par(0, level, <<TP("/"), i, TP("/")>> \o w) : i \in Ids, w \in Exprs(n - 1, 1)}
       \cup {Par(0, level, <<TP("/"), TX, TY, TP("/")>> \o w) : w \in Exprs(n - 1, 1)}
       \cup UNION {
              {Par(1, level, p[1] \o <<TP("|")>> \o p[2]) : p \in Exprs(a, 2) \X Exprs(n - 1 - a, 1)}
              \cup {Par(3, level, p[1] \o <<TP(".")>> \o p[2]) : p \in Exprs(a, 4) \X Exprs(n - 1 - a, 3)}
              \cup {Par(4, level, p[1] \o p[2]) : p \in Exprs(a, 5) \X Exprs(n - 1 - a, 4)}
              : a \in 1..(n - 2)}
Goal(w) == <<TMatch>> \o w \o <<TP(";")>>
Def(i, ps, w) == <<TLet, i>> \o ps \o <<TP("=")>> \o w \o <<TP(";")>>
(* Programs with one definition, of total size n. *)
ParamLists == {<<>>, <<TX>>, <<TX, TY>>}
WithDef(n) ==
  UNION {{Def(TX, ps, p[1]) \o Goal(p[2]) : p \in Exprs(a, 0) \X Exprs(n - a, 0), ps \in ParamLists}
         : a \in 1..(n - 1)}
=============================================================================
