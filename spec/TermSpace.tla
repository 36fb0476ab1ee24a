------------------------------ MODULE TermSpace ------------------------------
(* Finite spaces of terms for the bounded models.                           *)
EXTENDS Core

(* Expanded grammars of size exactly m over the given leaves, with d fixed  *)
(* point variables in scope.  A fixed point and its lambda count as one.    *)
XName == [c |-> <<120>>, k |-> VARIABLE_NAME]
RECURSIVE Grammars(_, _, _)
Grammars(m, d, leaves) ==
  IF m = 1 THEN leaves \cup {MkVar(i) : i \in 0..(d - 1)}
  ELSE {MkFix(MkLam(<<XName>>, b)) : b \in Grammars(m - 1, d + 1, leaves)}
       \cup UNION {LET A == Grammars(a, d, leaves)
                       B == Grammars(m - 1 - a, d, leaves)
                   IN {MkCat(<<p[1], p[2]>>) : p \in A \X B}
                      \cup {MkAlt(<<p[1], p[2]>>) : p \in A \X B}
                   : a \in 1..(m - 2)}
       \cup (IF m < 4 THEN {}
             ELSE UNION {UNION {
                    LET A == Grammars(a, d, leaves)
                        B == Grammars(b, d, leaves)
                        C == Grammars(m - 1 - a - b, d, leaves)
                    IN {MkCat(<<p[1], p[2], p[3]>>) : p \in A \X B \X C}
                       \cup {MkAlt(<<p[1], p[2], p[3]>>) : p \in A \X B \X C}
                    : b \in 1..(m - 2 - a)} : a \in 1..(m - 3)})
GrammarsUpTo(m, leaves) == UNION {Grammars(x, 0, leaves) : x \in 1..m}

(* Unexpanded terms of size exactly m with d variables in scope: lets,      *)
(* calls of one or two arguments, lambdas of one or two parameters.         *)
YName == [c |-> <<121>>, k |-> VARIABLE_NAME]
LName == [c |-> <<108>>, k |-> LET_NAME]
RECURSIVE Programs(_, _, _)
Programs(m, d, leaves) ==
  IF m = 1 THEN leaves \cup {MkVar(i) : i \in 0..(d - 1)}
  ELSE {MkLam(<<XName>>, b) : b \in Programs(m - 1, d + 1, leaves)}
       \cup {MkLam(<<XName, YName>>, b) : b \in Programs(m - 1, d + 2, leaves)}
       \cup {MkFix(b) : b \in Programs(m - 1, d, leaves)}
       \cup UNION {LET A == Programs(a, d, leaves)
                       B == Programs(m - 1 - a, d, leaves)
                       B1 == Programs(m - 1 - a, d + 1, leaves)
                   IN {MkCat(<<p[1], p[2]>>) : p \in A \X B}
                      \cup {MkCall(p[1], <<p[2]>>) : p \in A \X B}
                      \cup {MkLet(LName, p[1], p[2]) : p \in A \X B1}
                   : a \in 1..(m - 2)}
       \cup (IF m < 4 THEN {}
             ELSE UNION {UNION {
                    LET A == Programs(a, d, leaves)
                        B == Programs(b, d, leaves)
                        C == Programs(m - 1 - a - b, d, leaves)
                    IN {MkCall(p[1], <<p[2], p[3]>>) : p \in A \X B \X C}
                    : b \in 1..(m - 2 - a)} : a \in 1..(m - 3)})

RECURSIVE Words(_, _)
Words(n, A) == IF n = 0 THEN {<<>>}
               ELSE LET W == Words(n - 1, A)
                    IN W \cup {Append(w, c) : w \in {x \in W : Len(x) = n - 1}, c \in A}
=============================================================================
