------------------------------ MODULE GenTerms -------------------------------
(* Every small program (or grammar) with the outcome the specification      *)
(* gives it, for replay in the real code.                                   *)
EXTENDS TermSpace, Reduce, Types, Json, IOUtils, TLC, SequencesExt

CONSTANTS ProgSize, ProgFree, GramSize

Progs == UNION {Programs(m, f, {MkLit(<<97>>)}) : m \in 1..ProgSize, f \in 0..ProgFree}
GramLeaves == {MkEps, MkLit(<<97>>), MkLit(<<97, 98>>), MkLit(<<98>>)}
Grams == GrammarsUpTo(GramSize, GramLeaves)

Flat(S) == SetToSeq(S)
RECURSIVE Listed(_)
Listed(x) ==
  LET ty == [null |-> x.ty.null, first |-> SetToSortSeq(x.ty.first, <), flast |-> SetToSortSeq(x.ty.flast, <)]
  IN CASE x.k \in {"eps", "lit", "var"} -> [x EXCEPT !.ty = ty]
       [] x.k \in {"cat", "alt"} -> [x EXCEPT !.ty = ty, !.es = [j \in 1..Len(x.es) |-> Listed(x.es[j])]]
       [] x.k = "fix" -> [x EXCEPT !.ty = ty, !.e = Listed(x.e)]
Outcome(t) == LET r == TypeOf(t) IN IF r.st = "ok" THEN [r EXCEPT !.tt = Listed(r.tt)] ELSE r

ASSUME IF IOEnv.WHAT = "expand"
       THEN ndJsonSerialize(IOEnv.OUT, Flat({[t |-> x, r |-> Expand(x, 12)] : x \in Progs}))
       ELSE ndJsonSerialize(IOEnv.OUT, Flat({[t |-> x, r |-> Outcome(x)] : x \in Grams \cup Progs}))
=============================================================================
