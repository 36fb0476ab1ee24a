-------------------------------- MODULE Runs ---------------------------------
(* Places in an input given as runs <<[c, n], ...>> of n times the character *)
(* c, for inputs that are too long to write out.                            *)
EXTENDS Position

(* The place after run k, when `at` is the place before it. *)
AfterRun(rs, k, at) ==
  LET c == rs[k].c  n == rs[k].n
      crlf == k < Len(rs) /\ rs[k + 1].c = LF
  IN IF c \in Breaks THEN [line |-> at.line + n, col |-> 0]
     ELSE IF c # CR THEN [line |-> at.line, col |-> at.col + n]
     (* a return before another return ends its line *)
     ELSE IF ~crlf THEN [line |-> at.line + n, col |-> 0]
     ELSE IF n = 1 THEN [line |-> at.line, col |-> at.col + 1]
     ELSE [line |-> at.line + n - 1, col |-> 1]
RECURSIVE PlacesOf(_, _, _)
PlacesOf(rs, k, at) ==
  IF k > Len(rs) THEN <<>> ELSE LET to == AfterRun(rs, k, at) IN <<to>> \o PlacesOf(rs, k + 1, to)
(* The places after each run. *)
Places(rs) == PlacesOf(rs, 1, [line |-> 1, col |-> 0])

(* The runs of a text. *)
RECURSIVE RunsOf(_, _, _)
RunsOf(w, j, acc) ==
  IF j > Len(w) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)].c = w[j]
       THEN RunsOf(w, j + 1, [acc EXCEPT ![Len(acc)].n = @ + 1])
       ELSE RunsOf(w, j + 1, Append(acc, [c |-> w[j], n |-> 1]))
RECURSIVE Length(_, _)
Length(rs, k) == IF k = 0 THEN 0 ELSE rs[k].n + Length(rs, k - 1)
=============================================================================
