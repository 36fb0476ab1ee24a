----------------------------- MODULE GenRuntime ------------------------------
(* Short sources with short histories of calls on them, for the real code.  *)
EXTENDS Runtime, TLC, Json, IOUtils, SequencesExt

CONSTANTS PlainLen, PlainOps, CallLen

RECURSIVE Words(_, _), Histories(_, _)
Words(n, A) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1, A) IN W \cup {Append(w, c) : w \in W, c \in A}
Histories(n, A) == IF n = 0 THEN {<<>>} ELSE {Append(h, c) : h \in Histories(n - 1, A), c \in A}

N == [op |-> "next"]
P == [op |-> "peek"]
Plain == {[w |-> w, ops |-> h] : w \in Words(PlainLen, {97, CR, LF, NEL}), h \in Histories(PlainOps, {N, P})}

A == 97   C == 44   E == 93   X == 233
One == [op |-> "chars", set |-> <<A, X>>, n |-> 1]
ListOf(i) == [op |-> "items", item |-> i, sep |-> C, stop |-> E, follow |-> <<C, E>>, first |-> <<A, X>>]
Calls == {N, P,
          [op |-> "str", s |-> <<>>], [op |-> "str", s |-> <<A>>], [op |-> "str", s |-> <<A, C>>],
          [op |-> "str", s |-> <<X, A>>],
          [op |-> "skip", set |-> <<A>>, n |-> 99], [op |-> "skip", set |-> <<X, C>>, n |-> 1],
          [op |-> "chars", set |-> <<A, X>>, n |-> 2], [op |-> "chars", set |-> <<C>>, n |-> 1],
          ListOf(One), ListOf([op |-> "str", s |-> <<A>>])}
Composite == {[w |-> w, ops |-> h] : w \in Words(CallLen, {A, C, E, X}), h \in Histories(2, Calls)}

ASSUME IF IOEnv.WHAT = "plain"
       THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Plain))
       ELSE ndJsonSerialize(IOEnv.OUT, SetToSeq(Composite))
=============================================================================
