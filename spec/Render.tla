------------------------------- MODULE Render --------------------------------
(* Surface programs back to tokens, and operations on surface programs used *)
(* to state what reading and resolving must respect.                        *)
EXTENDS Syntax

(* Tokens up to how they are spelled. *)
Plain(w) == [j \in 1..Len(w) |->
               IF w[j].t \in {"id", "str"} THEN [t |-> w[j].t, c |-> w[j].c] ELSE [t |-> w[j].t]]
P(kind) == <<[t |-> kind]>>
I(c) == <<[t |-> "id", c |-> c]>>
UnderText == <<95>>  LetText == <<108, 101, 116>>  MatchText == <<109, 97, 116, 99, 104>>

RECURSIVE Print(_), PrintSep(_, _, _), PrintIds(_, _)
Print(x) ==
  CASE x.k = "eps"   -> I(UnderText)
    [] x.k = "id"    -> I(x.c)
    [] x.k = "str"   -> <<[t |-> "str", c |-> x.s]>>
    [] x.k = "bang"  -> P("!") \o Print(x.e)
    [] x.k = "paren" -> P("(") \o Print(x.e) \o P(")")
    [] x.k = "call"  -> PrintSep(x.es, 1, <<>>)
    [] x.k = "cat"   -> PrintSep(x.es, 1, P("."))
    [] x.k = "lab"   -> IF x.l.k = NONE THEN Print(x.e) ELSE Print(x.e) \o P(":") \o I(x.l.c)
    [] x.k = "alt"   -> PrintSep(x.es, 1, P("|"))
    [] x.k = "lam"   -> P("/") \o PrintIds(x.ps, 1) \o P("/") \o Print(x.e)
    [] x.k = "goal"  -> I(MatchText) \o Print(x.e) \o P(";")
    [] x.k = "let"   -> I(LetText) \o I(x.x) \o PrintIds(x.ps, 1) \o P("=") \o Print(x.e)
                        \o P(";") \o Print(x.m)
PrintSep(es, j, sep) ==
  IF j = Len(es) THEN Print(es[j]) ELSE Print(es[j]) \o sep \o PrintSep(es, j + 1, sep)
PrintIds(ps, j) == IF j > Len(ps) THEN <<>> ELSE I(ps[j]) \o PrintIds(ps, j + 1)

---------------------------------------------------------------------------
(* Every binder renamed apart: the k-th binder met becomes the text <<k>>.  *)
(* env: pairs <<old, new>>, innermost last.  Result: <<program, next k>>.   *)
RECURSIVE Renamed(_, _, _), RenamedSeq(_, _, _, _, _)
LookupPair(env, c) ==
  LET S == {j \in 1..Len(env) : env[j][1] = c}
  IN IF S = {} THEN c ELSE env[CHOOSE j \in S : \A i \in S : i <= j][2]
Fresh(ps, k) == [j \in 1..Len(ps) |-> <<k + j>>]
Pairs(ps, k) == [j \in 1..Len(ps) |-> <<ps[j], <<k + j>>>>]
Renamed(x, env, k) ==
  CASE x.k \in {"eps", "str"} -> <<x, k>>
    [] x.k = "id" -> <<[x EXCEPT !.c = LookupPair(env, x.c)], k>>
    [] x.k \in {"bang", "paren", "lab", "goal"} ->
         LET r == Renamed(x.e, env, k) IN <<[x EXCEPT !.e = r[1]], r[2]>>
    [] x.k \in {"call", "cat", "alt"} ->
         LET r == RenamedSeq(x.es, 1, env, k, <<>>) IN <<[x EXCEPT !.es = r[1]], r[2]>>
    [] x.k = "lam" ->
         LET r == Renamed(x.e, env \o Pairs(x.ps, k), k + Len(x.ps))
         IN <<[x EXCEPT !.ps = Fresh(x.ps, k), !.e = r[1]], r[2]>>
    [] x.k = "let" ->
         LET b == Renamed(x.e, env \o Pairs(x.ps, k), k + Len(x.ps))
             m == Renamed(x.m, Append(env, <<x.x, <<b[2] + 1>>>>), b[2] + 1)
         IN <<[x EXCEPT !.ps = Fresh(x.ps, k), !.e = b[1], !.x = <<b[2] + 1>>, !.m = m[1]], m[2]>>
RenamedSeq(es, j, env, k, acc) ==
  IF j > Len(es) THEN <<acc, k>>
  ELSE LET r == Renamed(es[j], env, k) IN RenamedSeq(es, j + 1, env, r[2], Append(acc, r[1]))

(* Structure and bindings without the texts of binders. *)
RECURSIVE Anonymous(_)
Anonymous(t) ==
  CASE t.k = "eps" -> [k |-> "eps"]
    [] t.k = "lit" -> [k |-> "lit", s |-> t.s]
    [] t.k \in {"cat", "alt"} -> [k |-> t.k, es |-> Now([j \in 1..Len(t.es) |-> Anonymous(t.es[j])])]
    [] t.k = "fix" -> [k |-> "fix", e |-> Anonymous(t.e)]
    [] t.k = "var" -> [k |-> "var", i |-> t.i]
    [] t.k = "call" -> [k |-> "call", f |-> Anonymous(t.f), as |-> Now([j \in 1..Len(t.as) |-> Anonymous(t.as[j])])]
    [] t.k = "lam" -> [k |-> "lam", m |-> Len(t.ps), e |-> Anonymous(t.e)]
    [] t.k = "let" -> [k |-> "let", b |-> Anonymous(t.b), e |-> Anonymous(t.e)]
=============================================================================
