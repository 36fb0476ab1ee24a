------------------------------ MODULE MCParser -------------------------------
(* Exhaustive bounded model of stages 3-5: every expanded grammar up to     *)
(* size MaxSize is type-checked; every accepted one is turned into a parser *)
(* and run on every input up to length MaxLen.                              *)
EXTENDS ParserMachine, TermSpace, Lang, TLC

CONSTANTS MaxSize, MaxLen, Horizon

A == 97   B == 98   C == 99
Leaves == {MkEps, MkLit(<<A>>), MkLit(<<B>>), MkLit(<<A, B>>)}
Inputs == Words(MaxLen, {A, B})

VARIABLES term, stage
vars == <<term, stage, gram, inp, todo, vals, pos, res>>

None == [k |-> "none"]
Idle == [st |-> "idle"]
Init ==
  /\ term \in GrammarsUpTo(MaxSize, Leaves)
  /\ stage = "source"
  /\ gram = None /\ inp = <<>> /\ todo = <<>> /\ vals = <<>> /\ pos = 0 /\ res = Idle

TypeCheck ==
  /\ stage = "source"
  /\ LET r == TypeOf(term)
     IN IF r.st = "ok" THEN gram' = r.tt /\ stage' = "typed"
        ELSE gram' = None /\ stage' = "rejected"
  /\ UNCHANGED <<term, inp, todo, vals, pos, res>>
Start(w) ==
  /\ stage = "typed" /\ stage' = "run"
  /\ inp' = w /\ todo' = <<Read(gram, <<>>)>> /\ vals' = <<>> /\ pos' = 0
  /\ res' = [st |-> "run"] /\ UNCHANGED <<term, gram>>
Run == stage = "run" /\ MachineNext /\ UNCHANGED <<term, stage>>
Next == TypeCheck \/ (\E w \in Inputs : Start(w)) \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)

---------------------------------------------------------------------------
(* C05: types tell the truth (checked when a grammar has just been typed).  *)
L == Lang(term, <<>>, Horizon)
Firsts(S) == {w[1] : w \in {x \in S : x # <<>>}}
Flasts(S) == UNION {{x[Len(w) + 1] : x \in {y \in S : Len(y) > Len(w) /\ SubSeq(y, 1, Len(w)) = w}}
                    : w \in S \ {<<>>}}
TypesSound ==
  stage = "typed" =>
    /\ gram.ty.null <=> <<>> \in L
    /\ Firsts(L) \subseteq gram.ty.first
    /\ Flasts(L) \subseteq gram.ty.flast
TypesExact ==
  stage = "typed" /\ Productive(term) =>
    /\ Firsts(L) = gram.ty.first
    /\ Flasts(L) = gram.ty.flast
(* An accepted grammar only fails to be productive by never terminating     *)
(* recursion; it then denotes less, never something else.                   *)
Unambiguous ==
  stage = "run" /\ pos = 0 /\ todo = <<Read(gram, <<>>)>> =>
    LET D == Derivs(term, <<>>, inp) IN \A p \in AllSpans(inp) : D[p] <= 1

(* C06: the machine accepts exactly the denoted language, and agrees with   *)
(* the big-step reading used for validating traces.                         *)
Correct ==
  /\ res.st = "done" => Member(term, inp)
  /\ res.st = "fail" => ~Member(term, inp)
  /\ res.st \in {"done", "fail"} =>
       LET r == ParseAll(gram, inp)
       IN IF res.st = "done" THEN r.ok /\ r.p = res.p /\ r.t = res.t ELSE ~r.ok /\ r = res.f
(* C07 *)
LosslessInv == stage = "run" => Lossless
TreeSpells == res.st = "done" => Flatten(res.t) = inp
(* C08: the failure is at the first character that cannot continue: the     *)
(* text before it is a prefix of some string, with it it is not (for        *)
(* productive grammars; bounded by Horizon).                                *)
Viable(x) == \E y \in L : Len(y) >= Len(x) /\ SubSeq(y, 1, Len(x)) = x
FaultIsFirst ==
  res.st = "fail" /\ Productive(term) =>
    /\ Viable(SubSeq(inp, 1, res.f.p))
    /\ res.f.p < Len(inp) => ~Viable(SubSeq(inp, 1, res.f.p + 1))
    /\ res.f.e = "eof" <=> res.f.p = Len(inp)
    /\ res.f.e = "branch" =>
         (* everything said to be acceptable is *)
         \A c \in res.f.exp : Viable(Append(SubSeq(inp, 1, res.f.p), c))
    /\ res.f.e = "string" =>
         Viable(SubSeq(inp, 1, res.f.p - (Len(res.f.got) - 1)) \o res.f.exp)
(* C06: every run ends. *)
Terminates == stage = "run" /\ res.st = "run" ~> res.st \in {"done", "fail"}
Bounded == Len(todo) <= 4 * (MaxLen + 1) * MaxSize
Ends == stage = "run" /\ res.st = "run" => ENABLED MachineNext
=============================================================================
