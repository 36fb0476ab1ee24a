-------------------------------- MODULE Lang --------------------------------
(* What a grammar denotes, independently of types and of parsing.           *)
(* Works on expanded terms (fix bodies under a one-parameter lambda).       *)
EXTENDS Core

---------------------------------------------------------------------------
(* (a) Bounded language: the set of strings of length <= n.                 *)
Concat(A, B, n) == {x \o y : <<x, y>> \in {p \in A \X B : Len(p[1]) + Len(p[2]) <= n}}

RECURSIVE Lang(_, _, _), LangCat(_, _, _, _), LangFix(_, _, _, _)
Lang(t, env, n) ==
  CASE t.k = "eps" -> {<<>>}
    [] t.k = "lit" -> IF Len(t.s) <= n THEN {t.s} ELSE {}
    [] t.k = "cat" -> LangCat(t.es, 1, env, n)
    [] t.k = "alt" -> UNION {Lang(t.es[j], env, n) : j \in 1..Len(t.es)}
    [] t.k = "var" -> env[Len(env) - t.i]
    [] t.k = "fix" -> LangFix(t.e.e, env, n, {})
LangCat(es, j, env, n) ==
  IF j = Len(es) THEN Lang(es[j], env, n)
  ELSE LET A == Lang(es[j], env, n)
       IN IF A = {} THEN {} ELSE Concat(A, LangCat(es, j + 1, env, n), n)
LangFix(body, env, n, last) ==
  LET next == Lang(body, Append(env, last), n)
  IN IF next = last THEN last ELSE LangFix(body, env, n, next)

---------------------------------------------------------------------------
(* (b) Relation on one input w: the set of spans <<i, j>> with w[i+1..j] in *)
(* the language.  Least fixed points over a finite lattice, so exact.       *)
RECURSIVE Spans(_, _, _), SpansCat(_, _, _, _), SpansFix(_, _, _, _)
Spans(t, env, w) ==
  CASE t.k = "eps" -> {<<i, i>> : i \in 0..Len(w)}
    [] t.k = "lit" -> {<<i, i + Len(t.s)>> :
                         i \in {x \in 0..(Len(w) - Len(t.s)) :
                                  \A y \in 1..Len(t.s) : w[x + y] = t.s[y]}}
    [] t.k = "cat" -> SpansCat(t.es, 1, env, w)
    [] t.k = "alt" -> UNION {Spans(t.es[j], env, w) : j \in 1..Len(t.es)}
    [] t.k = "var" -> env[Len(env) - t.i]
    [] t.k = "fix" -> SpansFix(t.e.e, env, w, {})
SpansCat(es, j, env, w) ==
  IF j = Len(es) THEN Spans(es[j], env, w)
  ELSE LET A == Spans(es[j], env, w)
           B == SpansCat(es, j + 1, env, w)
       IN {<<p[1][1], p[2][2]>> : p \in {q \in A \X B : q[1][2] = q[2][1]}}
SpansFix(body, env, w, last) ==
  LET next == Spans(body, Append(env, last), w)
  IN IF next = last THEN last ELSE SpansFix(body, env, w, next)

Member(t, w) == <<0, Len(w)>> \in Spans(t, <<>>, w)

---------------------------------------------------------------------------
(* (c) Number of derivations of each span of w, counted up to 2.            *)
Cap(x) == IF x > 2 THEN 2 ELSE x
AllSpans(w) == {<<i, j>> \in (0..Len(w)) \X (0..Len(w)) : i <= j}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN Cap(f[x] + SumOver(S \ {x}, f))
RECURSIVE Derivs(_, _, _), DerivsSeq(_, _, _, _), DerivsAlt(_, _, _, _), DerivsFix(_, _, _, _)
Derivs(t, env, w) ==
  CASE t.k = "eps" -> [p \in AllSpans(w) |-> IF p[1] = p[2] THEN 1 ELSE 0]
    [] t.k = "lit" -> [p \in AllSpans(w) |->
                         IF p[2] - p[1] = Len(t.s) /\ \A y \in 1..Len(t.s) : w[p[1] + y] = t.s[y]
                         THEN 1 ELSE 0]
    [] t.k = "cat" -> DerivsSeq(t.es, 1, env, w)
    [] t.k = "alt" -> DerivsAlt(t.es, 1, env, w)
    [] t.k = "var" -> env[Len(env) - t.i]
    [] t.k = "fix" -> DerivsFix(t.e.e, env, w, [p \in AllSpans(w) |-> 0])
DerivsSeq(es, j, env, w) ==
  IF j = Len(es) THEN Derivs(es[j], env, w)
  ELSE LET A == Derivs(es[j], env, w)
           B == DerivsSeq(es, j + 1, env, w)
       IN [p \in AllSpans(w) |->
             SumOver({m \in p[1]..p[2] : A[<<p[1], m>>] > 0 /\ B[<<m, p[2]>>] > 0},
                     [m \in p[1]..p[2] |-> Cap(A[<<p[1], m>>] * B[<<m, p[2]>>])])]
DerivsAlt(es, j, env, w) ==
  LET A == Derivs(es[j], env, w)
  IN IF j = Len(es) THEN A
     ELSE LET B == DerivsAlt(es, j + 1, env, w) IN [p \in AllSpans(w) |-> Cap(A[p] + B[p])]
DerivsFix(body, env, w, last) ==
  LET next == Derivs(body, Append(env, last), w)
  IN IF next = last THEN last ELSE DerivsFix(body, env, w, next)

---------------------------------------------------------------------------
(* (d) Productivity: every subterm denotes some string.                     *)
RECURSIVE Prod(_, _), ProdFix(_, _, _)
Prod(t, env) ==
  CASE t.k \in {"eps", "lit"} -> TRUE
    [] t.k = "cat" -> \A j \in 1..Len(t.es) : Prod(t.es[j], env)
    [] t.k = "alt" -> \E j \in 1..Len(t.es) : Prod(t.es[j], env)
    [] t.k = "var" -> env[Len(env) - t.i]
    [] t.k = "fix" -> ProdFix(t.e.e, env, FALSE)
ProdFix(body, env, last) ==
  LET next == Prod(body, Append(env, last))
  IN IF next = last THEN last ELSE ProdFix(body, env, next)
RECURSIVE AllProd(_, _)
AllProd(t, env) ==
  /\ Prod(t, env)
  /\ CASE t.k \in {"eps", "lit", "var"} -> TRUE
       [] t.k \in {"cat", "alt"} -> \A j \in 1..Len(t.es) : AllProd(t.es[j], env)
       [] t.k = "fix" -> AllProd(t.e.e, Append(env, Prod(t, env)))
Productive(t) == AllProd(t, <<>>)
=============================================================================
