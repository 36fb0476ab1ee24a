----------------------------- MODULE GenPrograms -----------------------------
(* Every short token sequence and every small program, to be run through    *)
(* the real code; what it does is then judged by TraceFront.                *)
EXTENDS TokenSpace, Json, IOUtils, TLC, SequencesExt

CONSTANTS SeqLen, LetLen, ProgSize, DefSize

W(S) == SetToSeq({[w |-> x] : x \in S})
Joined(f(_), a, b) == FlattenSeq([m \in 1..(b - a + 1) |-> f(m + a - 1)])
Goals(m) == W({InGoal(w) : w \in Sequences(m)})
Lets(m) == W({InLet(w) : w \in LetSequences(m)})
Plains(m) == W({Goal(w) : w \in Exprs(m, 0)})
Defs(m) == W(WithDef(m))
ASSUME ndJsonSerialize(IOEnv.OUT,
         Joined(Goals, 0, SeqLen) \o Joined(Lets, 0, LetLen)
         \o Joined(Plains, 1, ProgSize) \o Joined(Defs, 2, DefSize))
=============================================================================
