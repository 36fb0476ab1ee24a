------------------------------ MODULE Position ------------------------------
(* Places in an input: lines from one, columns from zero.                   *)
EXTENDS Integers, Sequences, FiniteSets

LF == 10   VT == 11   FF == 12   CR == 13   NEL == 133   LSEP == 8232   PSEP == 8233
Breaks == {LF, VT, FF, NEL, LSEP, PSEP}

(* Does reading character j of w end a line?  CR LF ends one at the LF.     *)
EndsLine(w, j) == \/ w[j] \in Breaks
                  \/ w[j] = CR /\ (j = Len(w) \/ w[j + 1] # LF)
(* The place after the first p characters of w: lines ended so far, and     *)
(* characters since the last line end.                                      *)
RECURSIVE LastEnd(_, _)
LastEnd(w, j) == IF j = 0 THEN 0 ELSE IF EndsLine(w, j) THEN j ELSE LastEnd(w, j - 1)
PosOf(w, p) == [line |-> 1 + Cardinality({j \in 1..p : EndsLine(w, j)}), col |-> p - LastEnd(w, p)]
=============================================================================
