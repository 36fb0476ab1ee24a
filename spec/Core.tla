-------------------------------- MODULE Core --------------------------------
(* Core terms of the chomp compiler: the language every later stage works   *)
(* on.  A term is a record with                                             *)
(*   k   kind: eps lit cat alt fix var call lam let                         *)
(*   n   the name attached to it (see Names)                                *)
(*   sp  the source span <<first, last>> token it came from (0,0: none)     *)
(* and by kind                                                              *)
(*   lit: s (code points)      cat, alt: es (parts), ps (span of the        *)
(*   fix: e                       punctuation before parts 2..n)            *)
(*   var: i (de Bruijn index)  call: f, as     lam: ps (names), e           *)
(*   let: x (name), b, e                                                    *)
EXTENDS Integers, Sequences, FiniteSets

---------------------------------------------------------------------------
(* Names: c is the text (code points), k the kind.                          *)
NONE == 0   VARIABLE_NAME == 1   LET_NAME == 2   LABEL_NAME == 3
NoName == [c |-> <<>>, k |-> NONE]

(* A label beats a let name beats a variable name; among equals the first.  *)
Merge(a, b) ==
  IF a.k = NONE THEN b
  ELSE IF b.k = NONE THEN a
  ELSE IF a.k >= b.k THEN a ELSE b
Merge3(a, b, c) == Merge(Merge(a, b), c)

NoSpan == <<0, 0>>

(* The same sequence: TLC would work out its items again at each use.       *)
Now(s) == <<>> \o s

---------------------------------------------------------------------------
(* Constructors without names and spans, used by the bounded models.        *)
MkEps        == [k |-> "eps", n |-> NoName, sp |-> NoSpan]
MkLit(s)     == [k |-> "lit", n |-> NoName, sp |-> NoSpan, s |-> s]
MkCat(es)    == [k |-> "cat", n |-> NoName, sp |-> NoSpan, es |-> es,
                 ps |-> [j \in 1..(Len(es) - 1) |-> NoSpan]]
MkAlt(es)    == [k |-> "alt", n |-> NoName, sp |-> NoSpan, es |-> es,
                 ps |-> [j \in 1..(Len(es) - 1) |-> NoSpan]]
MkFix(e)     == [k |-> "fix", n |-> NoName, sp |-> NoSpan, e |-> e]
MkVar(i)     == [k |-> "var", n |-> NoName, sp |-> NoSpan, i |-> i]
MkCall(f, a) == [k |-> "call", n |-> NoName, sp |-> NoSpan, f |-> f, as |-> a]
MkLam(p, e)  == [k |-> "lam", n |-> NoName, sp |-> NoSpan, ps |-> p, e |-> e]
MkLet(x,b,e) == [k |-> "let", n |-> NoName, sp |-> NoSpan, x |-> x, b |-> b, e |-> e]

---------------------------------------------------------------------------
(* Structure only: what equality of terms compares.                         *)
RECURSIVE Erase(_)
Erase(t) ==
  CASE t.k = "eps" -> [k |-> "eps"]
    [] t.k = "lit" -> [k |-> "lit", s |-> t.s]
    [] t.k \in {"cat", "alt"} -> [k |-> t.k, es |-> Now([j \in 1..Len(t.es) |-> Erase(t.es[j])])]
    [] t.k = "fix" -> [k |-> "fix", e |-> Erase(t.e)]
    [] t.k = "var" -> [k |-> "var", i |-> t.i]
    [] t.k = "call" -> [k |-> "call", f |-> Erase(t.f), as |-> Now([j \in 1..Len(t.as) |-> Erase(t.as[j])])]
    [] t.k = "lam" -> [k |-> "lam", ps |-> [j \in 1..Len(t.ps) |-> t.ps[j].c], e |-> Erase(t.e)]
    [] t.k = "let" -> [k |-> "let", x |-> t.x.c, b |-> Erase(t.b), e |-> Erase(t.e)]

(* Structure and every attached name.                                       *)
RECURSIVE EraseSpans(_)
EraseSpans(t) ==
  CASE t.k = "eps" -> [k |-> "eps", n |-> t.n]
    [] t.k = "lit" -> [k |-> "lit", n |-> t.n, s |-> t.s]
    [] t.k \in {"cat", "alt"} -> [k |-> t.k, n |-> t.n, es |-> Now([j \in 1..Len(t.es) |-> EraseSpans(t.es[j])])]
    [] t.k = "fix" -> [k |-> "fix", n |-> t.n, e |-> EraseSpans(t.e)]
    [] t.k = "var" -> [k |-> "var", n |-> t.n, i |-> t.i]
    [] t.k = "call" -> [k |-> "call", n |-> t.n, f |-> EraseSpans(t.f), as |-> Now([j \in 1..Len(t.as) |-> EraseSpans(t.as[j])])]
    [] t.k = "lam" -> [k |-> "lam", n |-> t.n, ps |-> [j \in 1..Len(t.ps) |-> t.ps[j].c], e |-> EraseSpans(t.e)]
    [] t.k = "let" -> [k |-> "let", n |-> t.n, x |-> t.x.c, b |-> EraseSpans(t.b), e |-> EraseSpans(t.e)]

---------------------------------------------------------------------------
(* Renaming of free variables: every variable at or above depth d moves by  *)
(* `by` binders.  A lambda binds one variable per parameter, a let one.  A  *)
(* fixed point binds nothing itself: its body is a lambda.                  *)
RECURSIVE Shift(_, _, _)
Shift(t, d, by) ==
  CASE t.k \in {"eps", "lit"} -> t
    [] t.k \in {"cat", "alt"} -> [t EXCEPT !.es = Now([j \in 1..Len(t.es) |-> Shift(t.es[j], d, by)])]
    [] t.k = "fix" -> [t EXCEPT !.e = Shift(t.e, d, by)]
    [] t.k = "var" -> IF t.i >= d THEN [t EXCEPT !.i = t.i + by] ELSE t
    [] t.k = "call" -> [t EXCEPT !.f = Shift(t.f, d, by),
                                 !.as = Now([j \in 1..Len(t.as) |-> Shift(t.as[j], d, by)])]
    [] t.k = "lam" -> [t EXCEPT !.e = Shift(t.e, d + Len(t.ps), by)]
    [] t.k = "let" -> [t EXCEPT !.b = Shift(t.b, d, by), !.e = Shift(t.e, d + 1, by)]

(* Simultaneous substitution.  Under d local binders, variables d..d+m-1    *)
(* stand for the m arguments (the last argument is variable d, parameters   *)
(* being pushed left to right); variables beyond them lose m binders.  The  *)
(* substituted copy keeps its own span and combines its name with the       *)
(* occurrence's.                                                            *)
RECURSIVE SubstAll(_, _, _)
SubstAll(t, d, args) ==
  LET m == Len(args) IN
  CASE t.k \in {"eps", "lit"} -> t
    [] t.k \in {"cat", "alt"} -> [t EXCEPT !.es = Now([j \in 1..Len(t.es) |-> SubstAll(t.es[j], d, args)])]
    [] t.k = "fix" -> [t EXCEPT !.e = SubstAll(t.e, d, args)]
    [] t.k = "var" ->
         IF t.i < d THEN t
         ELSE IF t.i >= d + m THEN [t EXCEPT !.i = t.i - m]
         ELSE LET a == Shift(args[m - (t.i - d)], 0, d)
              IN [a EXCEPT !.n = Merge(a.n, t.n)]
    [] t.k = "call" -> [t EXCEPT !.f = SubstAll(t.f, d, args),
                                 !.as = Now([j \in 1..Len(t.as) |-> SubstAll(t.as[j], d, args)])]
    [] t.k = "lam" -> [t EXCEPT !.e = SubstAll(t.e, d + Len(t.ps), args)]
    [] t.k = "let" -> [t EXCEPT !.b = SubstAll(t.b, d, args), !.e = SubstAll(t.e, d + 1, args)]

(* Free variables, as indices relative to the outside of t.                 *)
RECURSIVE FreeVars(_, _)
FreeVars(t, d) ==
  CASE t.k \in {"eps", "lit"} -> {}
    [] t.k \in {"cat", "alt"} -> UNION {FreeVars(t.es[j], d) : j \in 1..Len(t.es)}
    [] t.k = "fix" -> FreeVars(t.e, d)
    [] t.k = "var" -> IF t.i >= d THEN {t.i - d} ELSE {}
    [] t.k = "call" -> FreeVars(t.f, d) \cup UNION {FreeVars(t.as[j], d) : j \in 1..Len(t.as)}
    [] t.k = "lam" -> FreeVars(t.e, d + Len(t.ps))
    [] t.k = "let" -> FreeVars(t.b, d) \cup FreeVars(t.e, d + 1)

RECURSIVE SumSize(_, _)
RECURSIVE Size(_)
Size(t) ==
  CASE t.k \in {"eps", "lit", "var"} -> 1
    [] t.k \in {"cat", "alt"} -> 1 + SumSize(t.es, Len(t.es))
    [] t.k \in {"fix", "lam"} -> 1 + Size(t.e)
    [] t.k = "call" -> 1 + Size(t.f) + SumSize(t.as, Len(t.as))
    [] t.k = "let" -> 1 + Size(t.b) + Size(t.e)
SumSize(es, j) == IF j = 0 THEN 0 ELSE Size(es[j]) + SumSize(es, j - 1)
=============================================================================
