------------------------------ MODULE GenArith -------------------------------
(* Every short text over the characters of arithmetic, every short sequence *)
(* of tokens, and longer expressions, for the real parsers.                 *)
EXTENDS Arith, TLC, Json, IOUtils, SequencesExt

CONSTANTS Chars, Tokens, Terms

RECURSIVE Words(_, _), Spell(_), Chains(_)
Words(n, A) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1, A) IN W \cup {Append(w, c) : w \in W, c \in A}
Spell(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Spell(Tail(ts))
Signs == {<<OPEN>>, <<CLOSE>>, <<STAR>>, <<PLUS>>, <<DASH>>, <<SLASH>>}
Short == Words(Chars, {48, 49, 55, SP, OPEN, CLOSE, STAR, PLUS, DASH, SLASH})
Sequences == {Spell(ts) : ts \in Words(Tokens, Signs \cup {<<55>>, <<50, 32>>})}
(* Terms joined by operators, some with a group in them. *)
Operands == {<<55>>, <<DASH, 51>>, <<OPEN, 50, DASH, 57, CLOSE>>}
Chains(n) == IF n = 1 THEN Operands
             ELSE {c \o <<o>> \o t : c \in Chains(n - 1), o \in {STAR, PLUS, DASH, SLASH}, t \in Operands}
All == Short \cup Sequences \cup Chains(Terms) \cup {<<OPEN>> \o c \o <<CLOSE>> : c \in Chains(Terms - 1)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[w |-> w] : w \in All}))
=============================================================================
