------------------------------ MODULE TraceLang ------------------------------
(* Accepted grammars with the types inferred for every subterm, against the *)
(* language they denote (C05).  Events [t, tt].                             *)
EXTENDS TraceBase, Types, Lang

CONSTANTS Horizon, Strings

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]

Got(x) == [null |-> x.ty.null, first |-> SetOf(x.ty.first), flast |-> SetOf(x.ty.flast)]
Firsts(S) == {w[1] : w \in S \ {<<>>}}
(* One pass over the prefixes that are themselves in S. *)
Flasts(S) == UNION {{w[j + 1] : j \in {i \in 1..(Len(w) - 1) : SubSeq(w, 1, i) \in S}} : w \in S}

(* What the type claims and the strings show.                               *)
Sound(ty, S) ==
  /\ ty.null <=> <<>> \in S
  /\ Firsts(S) \subseteq ty.first
  /\ Flasts(S) \subseteq ty.flast
(* Every subterm, with what its variables denote. *)
RECURSIVE AllSound(_, _, _)
AllSound(t, x, env) ==
  LET S == Lang(t, env, Horizon)
  IN /\ Sound(Got(x), S)
     /\ t.k \in {"cat", "alt"} => \A j \in 1..Len(t.es) : AllSound(t.es[j], x.es[j], env)
     /\ t.k = "fix" => AllSound(t.e.e, x.e, Append(env, S))
(* Nothing claimed that no string shows, and nothing missing.  The strings  *)
(* up to the horizon may not show everything; the typing rules, which the   *)
(* model shows to be exact, say what there is.                              *)
RECURSIVE AllExact(_, _)
AllExact(want, x) ==
  /\ Got(x) = want.ty
  /\ want.k \in {"cat", "alt"} => \A j \in 1..Len(want.es) : AllExact(want.es[j], x.es[j])
  /\ want.k = "fix" => AllExact(want.e, x.e)

RECURSIVE Some(_, _)
Some(S, k) == IF k = 0 \/ S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN {x} \cup Some(S \ {x}, k - 1)
(* The longest strings are the most likely to have two derivations. *)
Chosen(S) ==
  LET len == {Len(w) : w \in S}
      top == IF len = {} THEN 0 ELSE CHOOSE m \in len : \A l \in len : l <= m
  IN Some({w \in S : Len(w) >= top - 1}, Strings)
OneDerivation(t, S) == \A w \in S : Derivs(t, <<>>, w)[<<0, Len(w)>>] = 1

(* Grammars the typing rules reject may still be fine: only a witness       *)
(* counts, so all strings up to the horizon are tried.                      *)
True ==
  LET want == TypeOf(Ev.t)  S == Lang(Ev.t, <<>>, Horizon)
  IN /\ AllSound(Ev.t, Ev.tt, <<>>)
     /\ want.st = "ok" /\ Productive(Ev.t) => AllExact(want.tt, Ev.tt)
     /\ OneDerivation(Ev.t, IF want.st = "ok" THEN Chosen(S) ELSE Some(S, 40 * Strings))

(* A variable that is not bound, or is under no lambda: no grammar.         *)
RECURSIVE Closed(_, _)
Closed(t, d) ==
  CASE t.k \in {"eps", "lit"} -> TRUE
    [] t.k = "var" -> t.i < d
    [] t.k \in {"cat", "alt"} -> \A j \in 1..Len(t.es) : Closed(t.es[j], d)
    [] t.k = "fix" -> t.e.k = "lam" /\ Len(t.e.ps) = 1 /\ Closed(t.e.e, d + 1)
    [] OTHER -> FALSE

Init == case \in 1..Len(Trace) /\ stage = "given"
Truth ==
  /\ stage = "given"
  /\ IF Closed(Ev.t, 0) /\ ~True
     THEN Report(case, [types |-> TypeOf(Ev.t), strings |-> Some(Lang(Ev.t, <<>>, Horizon), 10)]) /\ stage' = "rejected"
     ELSE stage' = "explained"
  /\ UNCHANGED case
Next == Truth
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
