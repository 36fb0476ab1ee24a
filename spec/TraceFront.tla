----------------------------- MODULE TraceFront ------------------------------
(* Recorded runs of the front end and of the whole compiler on token        *)
(* sequences.  Events:                                                      *)
(*   [ev |-> "front", toks, r, again]   read and resolved; if that          *)
(*        succeeded, rendered, read and resolved once more                  *)
(*   [ev |-> "common", toks, r, s, eq]  both front ends on one text         *)
(*   [ev |-> "places", toks, r]         compiled as far as it goes          *)
(*   [ev |-> "invoked", toks, r, at]    the same as an invocation of the    *)
(*        macro: the token at which rustc says the fault starts             *)
(*   [ev |-> "text", x, r, s, eq]       any text at all; s and eq only where *)
(*        the self-hosted front end is at hand                              *)
(*   [ev |-> "scope", ops, found]       the scopes alone: names bound and   *)
(*        looked up, and what each search found                             *)
EXTENDS TraceBase, Compile, Messages, Lexing

Fuel == 80

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]
Judge(ok, want) == IF ok THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"

Init == case \in 1..Len(Trace) /\ stage = "given"
Given(ev) == stage = "given" /\ Ev.ev = ev /\ UNCHANGED case

(* C01: acceptance, structure, bindings and literals; which name is missing. *)
FrontAgrees(want, got) ==
  /\ want.st = got.st
  /\ want.st = "ok" => Erase(want.t) = Erase(got.t)
  /\ want.st = "undeclared" => want.c = got.c
(* C11: the names attached on the way. *)
NamesAgree(want, got) == want.st = "ok" /\ got.st = "ok" => EraseSpans(want.t) = EraseSpans(got.t)
(* C17: what is printed reads back as the same term. *)
AgainAgrees(want, ev) ==
  want.st = "ok" /\ ev.r.st = "ok" /\ Erase(want.t) = Erase(ev.r.t) =>
    /\ "again" \in DOMAIN ev /\ ev.again.st = "ok"
    /\ Erase(ev.again.t) = Erase(want.t)
    /\ ev.again.eq

ReadAndResolve ==
  /\ Given("front")
  /\ LET want == FrontEnd(Ev.toks)
     IN Judge(CASE Facet = "C01" -> FrontAgrees(want, Ev.r)
                [] Facet = "C11" -> NamesAgree(want, Ev.r)
                [] Facet = "C17" -> AgainAgrees(want, Ev), want)

(* C02: what both front ends read: the self-hosted one has no use for `_`   *)
(* as a name, and does not know Rust's keywords.                            *)
InCommon(w) == \A p \in 1..Len(w) :
                 /\ (p > 1 /\ Word(w, p, "_")) => ~(Is(w, p - 1, ":") \/ Word(w, p - 1, "let"))
                 /\ (AnyId(w, p) /\ w[p].s \in Keywords \ {"_"}) => p = 1 \/ Is(w, p - 1, ";")
RECURSIVE Rootless(_)
Rootless(t) ==
  IF t.k = "let" THEN [t EXCEPT !.e = Rootless(t.e)]
  ELSE IF t.n.c = AstName.c THEN [t EXCEPT !.n = NoName] ELSE t
BothFrontEnds ==
  /\ Given("common")
  /\ LET want == FrontEnd(Ev.toks)
     IN Judge(InCommon(Ev.toks) =>
                /\ (Ev.r.st = "ok") = (Ev.s.st = "ok")
                /\ (Ev.s.st = "ok") = (want.st = "ok")
                /\ Ev.s.st \in {"ok", "syntax", "undeclared"}
                /\ (want.st = "ok") =>
                     /\ Ev.eq /\ Erase(Ev.r.t) = Erase(Ev.s.t) /\ Erase(Ev.s.t) = Erase(want.t)
                     (* the name of the whole: a default is the built-in one's own business *)
                     /\ EraseSpans(Rootless(Ev.r.t)) = EraseSpans(Rootless(Ev.s.t))
                     /\ EraseSpans(Rootless(Ev.s.t)) = EraseSpans(Rootless(want.t))
                /\ (want.st = "undeclared" /\ Ev.s.st = "undeclared") => Ev.s.c = want.c,
              want)

(* C16: the place of the diagnostic, when there is no doubt what it is;     *)
(* C18: what it says.                                                       *)
Places ==
  /\ Given("places")
  /\ LET want == Compile(Ev.toks, Fuel)
     IN Judge(want.st = "err" /\ Ev.r.st = "err" /\ want.e = Ev.r.e /\ want.e # "syntax"
                => IF Facet = "C18" THEN Told(want, Ev.r) ELSE want.sp = Ev.r.sp, IF want.st = "ok" THEN [st |-> "ok"] ELSE want)

Invoked ==
  /\ Given("invoked")
  /\ LET want == Compile(Ev.toks, Fuel)
     IN Judge(want.st = "err" /\ Ev.r.st = "err" /\ want.e = Ev.r.e /\ want.e # "syntax"
                => Ev.at = want.sp[1], IF want.st = "ok" THEN [st |-> "ok"] ELSE want)

(* C01 on characters. *)
FromText(l) == IF l.st = "bad" THEN [st |-> "syntax"] ELSE FrontEnd(l.w)
TextAgrees(l) == l.st # "unsure" => FrontAgrees(FromText(l), Ev.r)
(* C02: whatever the self-hosted front end makes of a text, the built-in    *)
(* one makes the same of it, up to its taste in names.                      *)
RECURSIVE Plain(_)
Plain(t) ==
  CASE t.k \in {"eps", "lit", "var"} -> TRUE
    [] t.k \in {"cat", "alt"} -> \A j \in 1..Len(t.es) : Plain(t.es[j])
    [] t.k = "fix" -> Plain(t.e)
    [] t.k = "lam" -> Plain(t.e) /\ \A j \in 1..Len(t.ps) : Str(t.ps[j].c) \notin Keywords
    [] t.k = "let" -> Plain(t.b) /\ Plain(t.e)
    [] t.k = "call" -> Plain(t.f) /\ \A j \in 1..Len(t.as) : Plain(t.as[j])
TextsAgree(l) ==
  /\ Ev.s.st \in {"ok", "syntax", "undeclared", "refused"}
  /\ (Ev.s.st = "ok" /\ Plain(Ev.s.t)) =>
       /\ Ev.r.st = "ok" /\ Ev.eq
       /\ EraseSpans(Rootless(Ev.r.t)) = EraseSpans(Rootless(Ev.s.t))
  /\ (Ev.s.st = "undeclared" /\ l.st = "ok" /\ InCommon(l.w)) => Ev.r.st = "undeclared" /\ Ev.r.c = Ev.s.c
  /\ Ev.s.st = "refused" => Ev.r.st # "ok"
Texts ==
  /\ Given("text")
  /\ LET l == Lex(Ev.x)
     IN Judge(IF Facet = "C02" THEN TextsAgree(l) ELSE TextAgrees(l), [lexed |-> l])

(* C01 on scopes: `bound` is what is in scope, innermost last; what was     *)
(* opened last is shut first.                                               *)
Innermost(bound, name) ==
  LET at == {j \in 1..Len(bound) : bound[j] = name}
  IN IF at = {} THEN -1 ELSE Len(bound) - (CHOOSE j \in at : \A i \in at : i <= j)
RECURSIVE Searches(_, _, _)
Searches(ops, p, bound) ==
  IF p > Len(ops) THEN <<>>
  ELSE CASE ops[p].o \in {"push", "open"} -> Searches(ops, p + 1, bound \o ops[p].ns)
         [] ops[p].o = "shut" -> Searches(ops, p + 1, SubSeq(bound, 1, Len(bound) - Len(ops[p].ns)))
         [] ops[p].o = "look" -> <<Innermost(bound, ops[p].ns[1])>> \o Searches(ops, p + 1, bound)
Scopes ==
  /\ Given("scope")
  /\ LET want == Searches(Ev.ops, 1, <<>>) IN Judge(Ev.found = want, want)

Next == Invoked \/ Scopes \/ Texts \/ ReadAndResolve \/ BothFrontEnds \/ Places
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
