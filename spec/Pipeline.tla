------------------------------ MODULE Pipeline ------------------------------
(* The compiler as a machine over one program: tokens are read, identifiers *)
(* resolved, lets and calls expanded, the result type-checked; each stage   *)
(* can stop it with a diagnostic.  Every stage is the definition from its   *)
(* own module.                                                              *)
EXTENDS Compile

VARIABLES toks, stage, art
pvars == <<toks, stage, art>>

PipelineInit(w) == toks = w /\ stage = "tokens" /\ art = [k |-> "none"]
Stop(why, sp) == stage' = "stopped" /\ art' = [e |-> why, sp |-> sp]

ReadProgram ==
  /\ stage = "tokens"
  /\ LET r == Read(toks)
     IN IF r.ok THEN stage' = "surface" /\ art' = r.x ELSE Stop("syntax", NoSpan)
  /\ UNCHANGED toks
ResolveNames ==
  /\ stage = "surface"
  /\ LET r == Resolve(art, <<>>)
     IN IF r.st = "ok" THEN stage' = "core" /\ art' = r.t ELSE Stop("undeclared", r.sp)
  /\ UNCHANGED toks
ExpandProgram(fuel) ==
  /\ stage = "core"
  /\ LET r == Expand(art, fuel)
     IN CASE r.st = "ok" -> stage' = "expanded" /\ art' = r.t
          [] r.st = "err" -> Stop(r.e, r.sp)
          [] r.st = "div" -> stage' = "diverged" /\ art' = [k |-> "none"]
  /\ UNCHANGED toks
TypeCheckGrammar ==
  /\ stage = "expanded"
  /\ LET r == TypeOf(art)
     IN IF r.st = "ok" THEN stage' = "typed" /\ art' = r.tt ELSE Stop(r.e, r.sp)
  /\ UNCHANGED toks
PipelineNext(fuel) == ReadProgram \/ ResolveNames \/ ExpandProgram(fuel) \/ TypeCheckGrammar
=============================================================================
