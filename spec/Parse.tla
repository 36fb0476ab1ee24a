-------------------------------- MODULE Parse -------------------------------
(* The reading of a typed grammar that generated parsers implement: one     *)
(* character of lookahead, no backtracking (big-step form; ParserMachine    *)
(* has the same as a transition system).                                    *)
(*                                                                          *)
(* Take(tt, env, w, p): read tt from input w at offset p.  env is the stack *)
(* of fixed points in scope, each [b |-> body, env |-> its own stack].      *)
(* Result [ok |-> TRUE, p |-> offset after, t |-> tree]                     *)
(*     or [ok |-> FALSE, p |-> offset of fault, e |-> kind, ...]            *)
EXTENDS Types

TreeEps       == [t |-> "eps"]
TreeLit(s)    == [t |-> "lit", s |-> s]
TreeCat(cs)   == [t |-> "cat", cs |-> cs]
TreeAlt(i, c) == [t |-> "alt", i |-> i, c |-> c]

RECURSIVE Flatten(_), FlattenSeq(_, _)
Flatten(x) ==
  CASE x.t = "eps" -> <<>>
    [] x.t = "lit" -> x.s
    [] x.t = "cat" -> FlattenSeq(x.cs, 1)
    [] x.t = "alt" -> Flatten(x.c)
FlattenSeq(cs, j) == IF j > Len(cs) THEN <<>> ELSE Flatten(cs[j]) \o FlattenSeq(cs, j + 1)

Got(p, x)         == [ok |-> TRUE, p |-> p, t |-> x]
FailEof(p)        == [ok |-> FALSE, e |-> "eof", p |-> p]
FailBranch(p, c, S) == [ok |-> FALSE, e |-> "branch", p |-> p, got |-> c, exp |-> S]
FailString(p, got, s) == [ok |-> FALSE, e |-> "string", p |-> p, got |-> got, exp |-> s]
FailMore(p)       == [ok |-> FALSE, e |-> "more", p |-> p]

(* The literal s, of which the first j characters have matched at p.        *)
RECURSIVE TakeLit(_, _, _, _)
TakeLit(s, j, w, p) ==
  IF j = Len(s) THEN Got(p, TreeLit(s))
  ELSE IF p >= Len(w) THEN FailEof(p)
  ELSE IF w[p + 1] = s[j + 1] THEN TakeLit(s, j + 1, w, p + 1)
  ELSE FailString(p, Append(SubSeq(s, 1, j), w[p + 1]), s)

(* The branch of an alternation to enter on seeing character c (0: end of   *)
(* input): the one whose first set has c, else the nullable one, else 0.    *)
Choose(es, w, p) ==
  LET hit == {j \in 1..Len(es) : p < Len(w) /\ w[p + 1] \in es[j].ty.first}
      nul == {j \in 1..Len(es) : es[j].ty.null}
  IN IF hit # {} THEN CHOOSE j \in hit : \A i \in hit : j <= i
     ELSE IF nul # {} THEN CHOOSE j \in nul : \A i \in nul : j <= i
     ELSE 0

RECURSIVE Take(_, _, _, _), TakeSeq(_, _, _, _, _, _)
Take(tt, env, w, p) ==
  CASE tt.k = "eps" -> Got(p, TreeEps)
    [] tt.k = "lit" -> TakeLit(tt.s, 0, w, p)
    [] tt.k = "cat" -> TakeSeq(tt.es, 1, env, w, p, <<>>)
    [] tt.k = "alt" ->
         LET j == Choose(tt.es, w, p)
         IN IF j = 0
            THEN IF p >= Len(w) THEN FailEof(p)
                 ELSE FailBranch(p, w[p + 1], UNION {tt.es[i].ty.first : i \in 1..Len(tt.es)})
            ELSE LET r == Take(tt.es[j], env, w, p)
                 IN IF r.ok THEN Got(r.p, TreeAlt(j, r.t)) ELSE r
    [] tt.k = "fix" -> Take(tt.e, Append(env, [b |-> tt.e, env |-> env]), w, p)
    [] tt.k = "var" -> LET c == env[Len(env) - tt.i] IN Take(c.b, Append(c.env, c), w, p)
TakeSeq(es, j, env, w, p, acc) ==
  IF j > Len(es) THEN Got(p, TreeCat(acc))
  ELSE LET r == Take(es[j], env, w, p)
       IN IF r.ok THEN TakeSeq(es, j + 1, env, w, r.p, Append(acc, r.t)) ELSE r

TakeAll(tt, w) == Take(tt, <<>>, w, 0)
ParseAll(tt, w) ==
  LET r == TakeAll(tt, w)
  IN IF r.ok /\ r.p < Len(w) THEN FailMore(r.p) ELSE r
=============================================================================
