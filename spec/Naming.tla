------------------------------- MODULE Naming -------------------------------
(* How attached names become field and variant names.  Texts are sequences  *)
(* of code points; the rules are stated for ASCII names.                    *)
EXTENDS Core

Underscore == 95
Lower(c) == c \in 97..122
Upper(c) == c \in 65..90
Digit(c) == c \in 48..57
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
ToUpper(c) == IF Lower(c) THEN c - 32 ELSE c
Ascii(s) == \A j \in 1..Len(s) : s[j] < 128

(* A name falls into words at underscores, before a capital that follows a  *)
(* small letter (digits in between or not), and before the last capital of  *)
(* a run of capitals when a small letter follows.  `run` is the current     *)
(* word; mode is the case of its last letter.                               *)
RECURSIVE Split(_, _, _, _, _)
Split(s, j, run, mode, acc) ==
  LET flush == IF run = <<>> THEN acc ELSE Append(acc, run) IN
  IF j > Len(s) THEN flush
  ELSE IF s[j] = Underscore THEN Split(s, j + 1, <<>>, "none", flush)
  ELSE LET c == s[j]
           next == IF j < Len(s) THEN s[j + 1] ELSE 0
           mode2 == IF Lower(c) THEN "low" ELSE IF Upper(c) THEN "up" ELSE mode
       IN IF mode2 = "low" /\ Upper(next)
          THEN Split(s, j + 1, <<>>, "none", Append(acc, Append(run, c)))
          ELSE IF mode = "up" /\ Upper(c) /\ Lower(next)
          THEN Split(s, j + 1, <<c>>, "none", flush)
          ELSE Split(s, j + 1, Append(run, c), mode2, acc)
WordsOf(s) == Split(s, 1, <<>>, "none", <<>>)

LowerAll(s) == [j \in 1..Len(s) |-> ToLower(s[j])]
Capital(s) == [j \in 1..Len(s) |-> IF j = 1 THEN ToUpper(s[j]) ELSE ToLower(s[j])]
RECURSIVE Join(_, _, _)
Join(ws, j, sep) ==
  IF j > Len(ws) THEN <<>>
  ELSE (IF j > 1 THEN sep ELSE <<>>) \o ws[j] \o Join(ws, j + 1, sep)
(* An identifier must not start with a digit or be empty. *)
Startable(s) == IF s = <<>> \/ Digit(s[1]) THEN <<Underscore>> \o s ELSE s
Camel(s) == Startable(LET ws == WordsOf(s) IN Join([j \in 1..Len(ws) |-> Capital(ws[j])], 1, <<>>))
Snake(s) == Startable(LET ws == WordsOf(s) IN Join([j \in 1..Len(ws) |-> LowerAll(ws[j])], 1, <<Underscore>>))

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))

(* Numbered names.  Unnamed parts carry their position, named ones count    *)
(* among equal names; a number already taken is passed over.                *)
RECURSIVE Free(_, _, _)
Free(base, k, used) == IF base \o Digits(k) \in used THEN Free(base, k + 1, used) ELSE k
RECURSIVE Number(_, _, _, _, _, _)
Number(bases, default, j, counts, used, acc) ==
  IF j > Len(bases) THEN acc
  ELSE LET b == bases[j]
           from == IF b = <<>> THEN j
                   ELSE IF b \in DOMAIN counts THEN counts[b] + 1 ELSE 1
           base == IF b = <<>> THEN default ELSE b
           k == Free(base, from, used)
           name == base \o Digits(k)
           counts2 == IF b = <<>> THEN counts
                      ELSE [x \in DOMAIN counts \cup {b} |-> IF x = b THEN k ELSE counts[x]]
       IN Number(bases, default, j + 1, counts2, used \cup {name}, Append(acc, name))
Empty == [x \in {} |-> 0]

Part == <<112, 97, 114, 116>>
Branch == <<66, 114, 97, 110, 99, 104>>
(* Names of the parts es (typed terms) of a sequence; of an alternation.    *)
AnyNamed(es) == \E j \in 1..Len(es) : es[j].n.k # NONE
Bases(es, F(_)) == [j \in 1..Len(es) |-> IF es[j].n.k = NONE THEN <<>> ELSE F(es[j].n.c)]
FieldNames(es) ==
  IF AnyNamed(es) THEN Number(Bases(es, Snake), Part, 1, Empty, {}, <<>>)
  ELSE [j \in 1..Len(es) |-> Digits(j - 1)]
VariantNames(es) == Number(Bases(es, Camel), Branch, 1, Empty, {}, <<>>)
AsciiNames(es) == \A j \in 1..Len(es) : Ascii(es[j].n.c)
=============================================================================
