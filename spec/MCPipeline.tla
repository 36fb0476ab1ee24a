----------------------------- MODULE MCPipeline ------------------------------
(* The compiler, stage by stage, on every small program and on arbitrary    *)
(* short token sequences.                                                   *)
EXTENDS Pipeline, Render, TokenSpace

CONSTANTS SeqLen, LetLen, ProgSize, DefSize
Fuel == 6

VARIABLE made
vars == <<pvars, made>>
Init ==
  \/ made = "arbitrary" /\ \E m \in 0..SeqLen : \E w \in Sequences(m) : PipelineInit(InGoal(w))
  \/ made = "arbitrary" /\ \E m \in 0..LetLen : \E w \in LetSequences(m) : PipelineInit(InLet(w))
  \/ made = "program" /\ \E m \in 1..ProgSize : \E w \in Exprs(m, 0) : PipelineInit(Goal(w))
  \/ made = "program" /\ \E m \in 2..DefSize : \E w \in WithDef(m) : PipelineInit(w)
Next == PipelineNext(Fuel) /\ UNCHANGED made
Spec == Init /\ [][Next]_vars

Bound == 1..Len(toks)
Within(sp) == sp = NoSpan \/ (sp[1] \in Bound /\ sp[2] \in Bound /\ sp[1] <= sp[2])
At(sp, kind) == sp[1] = sp[2] /\ sp[1] \in Bound /\ toks[sp[1]].t = kind

(* Reading loses nothing and adds nothing. *)
ReadIsFaithful == stage = "surface" => Print(art) = Plain(toks)
(* Every well-formed program is read. *)
ReadIsComplete ==
  stage = "stopped" /\ art.e = "syntax" => made = "arbitrary"
(* Names matter only up to renaming: when all binders are renamed apart the *)
(* program resolves to the same term.                                       *)
ResolveIsLexical ==
  stage = "surface" =>
    LET r == Resolve(art, <<>>)
        s == Resolve(Renamed(art, <<>>, 1000)[1], <<>>)
    IN r.st = s.st /\ (r.st = "ok" => Anonymous(r.t) = Anonymous(s.t))
                   /\ (r.st # "ok" => r.c = s.c /\ r.sp = s.sp)
(* No variable is ever lost: later stages keep programs closed. *)
StaysClosed == stage \in {"core", "expanded"} => FreeVars(art, 0) = {}
ExpansionIsComplete == stage = "expanded" => Expanded(art)
(* A diagnostic is about something the program says, and points at it. *)
DiagnosticsPoint ==
  stage = "stopped" =>
    CASE art.e = "syntax" -> TRUE
      [] art.e = "undeclared" -> At(art.sp, "id")
      [] art.e \in {"cat_null", "cat_overlap"} -> At(art.sp, ".")
      [] art.e \in {"alt_null", "alt_overlap"} -> At(art.sp, "|")
      [] art.e = "guarded" -> Within(art.sp) /\ art.sp # NoSpan
      [] art.e \in {"notfun", "arity", "fix", "lam"} -> Within(art.sp) /\ art.sp[1] < art.sp[2]
      [] OTHER -> FALSE
=============================================================================
