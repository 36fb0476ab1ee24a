------------------------------ MODULE Document -------------------------------
(* JSON documents, as characters, and the values they denote:               *)
(*   [k |-> "null"], [k |-> "bool", b], [k |-> "str", c],                   *)
(*   [k |-> "num", neg, ds, e]   0.d1d2.. times 10^e, no zeros at the ends  *)
(*   [k |-> "arr", es], [k |-> "obj", ms]  ms: [c, v] in order of the keys  *)
(* Reading gives [st, v, p]: how it went, the value, the place after it.    *)
(* A text is a document ("ok"), or one by its form, but with halves of      *)
(* surrogate pairs out of order ("odd") or without the other half beside    *)
(* them ("lone"), which no text holds, or none ("bad").                     *)
EXTENDS Integers, Sequences

QUOTE == 34  BACK == 92  COMMA == 44  COLON == 58  MINUS == 45  PLUS == 43  DOT == 46
OPENA == 91  CLOSEA == 93  OPENO == 123  CLOSEO == 125

At(w, p) == IF p <= Len(w) THEN w[p] ELSE -1
RECURSIVE Gap(_, _), Digits(_, _), Strip(_), Chop(_), NatOf(_, _)
Gap(w, p) == IF At(w, p) \in {32, 9, 10, 13} THEN Gap(w, p + 1) ELSE p
Digits(w, p) == IF At(w, p) \in 48..57 THEN Digits(w, p + 1) ELSE p
Strip(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN Strip(Tail(ds)) ELSE ds
Chop(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN Chop(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
NatOf(ds, n) == IF ds = <<>> THEN n ELSE NatOf(Tail(ds), 10 * n + Head(ds))

No == [st |-> "bad", v |-> [k |-> "null"], p |-> 0]
Got(v, p) == [st |-> "ok", v |-> v, p |-> p]
Rank(st) == CASE st = "ok" -> 0 [] st = "odd" -> 1 [] st = "lone" -> 2 [] OTHER -> 3
Worst(a, b) == IF Rank(a) < Rank(b) THEN b ELSE a
Worse(x, st) == [x EXCEPT !.st = Worst(@, st)]
Word(w, p, s, v) ==
  IF p + Len(s) - 1 <= Len(w) /\ SubSeq(w, p, p + Len(s) - 1) = s THEN Got(v, p + Len(s)) ELSE No
NULL == <<110, 117, 108, 108>>   TRU == <<116, 114, 117, 101>>   FALS == <<102, 97, 108, 115, 101>>

(* A number: digits before and after the point, and the exponent.  An       *)
(* exponent of more than 6 digits counts as 999999.                         *)
Norm(neg, int, frac, e) ==
  LET all == Strip(int \o frac)
  IN [k |-> "num", neg |-> neg, ds |-> Chop(all),
      e |-> IF all = <<>> THEN 0 ELSE Len(all) - Len(frac) + e]
Vals(w, p, q) == [j \in 1..(q - p) |-> w[p + j - 1] - 48]
NumberAt(w, p) ==
  LET neg == At(w, p) = MINUS
      i == IF neg THEN p + 1 ELSE p
      j == IF At(w, i) = 48 THEN i + 1 ELSE Digits(w, i)
      k == IF At(w, j) = DOT THEN Digits(w, j + 1) ELSE j
      sgn == At(w, k) \in {101, 69} /\ At(w, k + 1) \in {PLUS, MINUS}
      l == IF sgn THEN k + 2 ELSE k + 1
      m == IF At(w, k) \in {101, 69} THEN Digits(w, l) ELSE k
      eds == Strip(Vals(w, l, m))
      size == IF Len(eds) > 6 THEN 999999 ELSE NatOf(eds, 0)
  IN IF j = i \/ (At(w, j) = DOT /\ k = j + 1) \/ (At(w, k) \in {101, 69} /\ m = l) THEN No
     ELSE Got(Norm(neg, Vals(w, i, j), IF k = j THEN <<>> ELSE Vals(w, j + 1, k),
                   IF m = k THEN 0 ELSE IF At(w, k + 1) = MINUS THEN -size ELSE size), m)

HexVal(c) == CASE c \in 48..57  -> c - 48
               [] c \in 65..70  -> c - 55
               [] c \in 97..102 -> c - 87
               [] OTHER -> -1
(* Four hexadecimal digits at p, or -1. *)
Unit(w, p) == LET d == [j \in 0..3 |-> HexVal(At(w, p + j))]
              IN IF \E j \in 0..3 : d[j] = -1 THEN -1
                 ELSE 4096 * d[0] + 256 * d[1] + 16 * d[2] + d[3]
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
Escape(c) == CASE c = QUOTE -> QUOTE [] c = BACK -> BACK [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
               [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
(* One character of a string: [c, p], the place p after it, and c = -1 for  *)
(* none, -2 for half a pair, -3 for one without the other half beside it.   *)
Char(c, p) == [c |-> c, p |-> p]
(* What the escape at p stands for, if there is one. *)
Escaped(w, p) == IF p > 0 /\ At(w, p) = BACK /\ At(w, p + 1) = 117 THEN Unit(w, p + 2) ELSE -1
Beside(w, p, Other(_)) == Other(Escaped(w, p - 6)) \/ Other(Escaped(w, p + 6))
CharAt(w, p) ==
  LET c == At(w, p)  u == Unit(w, p + 2)  v == Escaped(w, p + 6)
  IN IF c = BACK
     THEN IF At(w, p + 1) = 117
          THEN CASE u = -1 -> Char(-1, 0)
                 [] High(u) /\ Low(v) -> Char(65536 + 1024 * (u - 55296) + (v - 56320), p + 12)
                 [] High(u) -> Char(IF Beside(w, p, Low) THEN -2 ELSE -3, p + 6)
                 [] Low(u) -> Char(IF Beside(w, p, High) THEN -2 ELSE -3, p + 6)
                 [] OTHER -> Char(u, p + 6)
          ELSE Char(Escape(At(w, p + 1)), p + 2)
     ELSE IF c >= 32 /\ c # QUOTE THEN Char(c, p + 1) ELSE Char(-1, 0)
RECURSIVE Chars(_, _, _, _)
Chars(w, p, acc, st) ==
  IF At(w, p) = QUOTE THEN Worse(Got([k |-> "str", c |-> acc], p + 1), st)
  ELSE LET x == CharAt(w, p)
       IN IF x.c = -1 THEN No
          ELSE IF x.c < 0 THEN Chars(w, x.p, acc, Worst(st, IF x.c = -2 THEN "odd" ELSE "lone"))
          ELSE Chars(w, x.p, Append(acc, x.c), st)
StringAt(w, p) == IF At(w, p) = QUOTE THEN Chars(w, p + 1, <<>>, "ok") ELSE No

(* Members in order of their keys; the last of equal keys counts. *)
Before(a, b) ==
  \/ \E j \in 1..Len(b) : /\ \A i \in 1..(j - 1) : i <= Len(a) /\ a[i] = b[i]
                          /\ j > Len(a) \/ (j <= Len(a) /\ a[j] < b[j])
Put(ms, c, v) ==
  LET lo == SelectSeq(ms, LAMBDA m : Before(m.c, c))  hi == SelectSeq(ms, LAMBDA m : Before(c, m.c))
  IN lo \o <<[c |-> c, v |-> v]>> \o hi

RECURSIVE ValueAt(_, _), Elements(_, _, _, _), Members(_, _, _, _)
ValueAt(w, p) ==
  CASE At(w, p) = 110 -> Word(w, p, NULL, [k |-> "null"])
    [] At(w, p) = 116 -> Word(w, p, TRU, [k |-> "bool", b |-> TRUE])
    [] At(w, p) = 102 -> Word(w, p, FALS, [k |-> "bool", b |-> FALSE])
    [] At(w, p) = QUOTE -> StringAt(w, p)
    [] At(w, p) \in {MINUS} \cup 48..57 -> NumberAt(w, p)
    [] At(w, p) = OPENA ->
         (LET q == Gap(w, p + 1)
          IN IF At(w, q) = CLOSEA THEN Got([k |-> "arr", es |-> <<>>], q + 1) ELSE Elements(w, q, <<>>, "ok"))
    [] At(w, p) = OPENO ->
         (LET q == Gap(w, p + 1)
          IN IF At(w, q) = CLOSEO THEN Got([k |-> "obj", ms |-> <<>>], q + 1) ELSE Members(w, q, <<>>, "ok"))
    [] OTHER -> No
Elements(w, p, es, st) ==
  LET x == Worse(ValueAt(w, p), st)
  IN IF x.st = "bad" THEN No
     ELSE LET q == Gap(w, x.p)  all == Append(es, x.v)
          IN CASE At(w, q) = COMMA  -> Elements(w, Gap(w, q + 1), all, x.st)
               [] At(w, q) = CLOSEA -> Worse(Got([k |-> "arr", es |-> all], q + 1), x.st)
               [] OTHER -> No
Members(w, p, ms, st) ==
  LET s == Worse(StringAt(w, p), st)  c == Gap(w, s.p)
  IN IF s.st = "bad" THEN No
     ELSE IF At(w, c) # COLON THEN No
     ELSE LET x == Worse(ValueAt(w, Gap(w, c + 1)), s.st)
          IN IF x.st = "bad" THEN No
             ELSE LET q == Gap(w, x.p)  all == Put(ms, s.v.c, x.v)
                  IN CASE At(w, q) = COMMA  -> Members(w, Gap(w, q + 1), all, x.st)
                       [] At(w, q) = CLOSEO -> Worse(Got([k |-> "obj", ms |-> all], q + 1), x.st)
                       [] OTHER -> No

Outcome(st, v) == [st |-> st, v |-> v]
Read(w) ==
  LET x == ValueAt(w, Gap(w, 1))
  IN IF x.st # "bad" /\ Gap(w, x.p) = Len(w) + 1 THEN Outcome(x.st, x.v) ELSE Outcome("bad", No.v)

(* The text with every number, and what has the letters of one, outside     *)
(* strings written 0, and white space of other kinds left out: what a       *)
(* reader sees that is lax about both.                                      *)
OtherSpace == {11, 12, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
RECURSIVE Lax(_, _, _, _)
Lax(w, p, quoted, acc) ==
  IF p > Len(w) THEN acc
  ELSE CASE quoted /\ w[p] = BACK /\ p < Len(w) -> Lax(w, p + 2, TRUE, acc \o <<w[p], w[p + 1]>>)
         [] w[p] = QUOTE -> Lax(w, p + 1, ~quoted, Append(acc, QUOTE))
         [] ~quoted /\ w[p] \in OtherSpace -> Lax(w, p + 1, FALSE, acc)
         [] ~quoted /\ w[p] \in {MINUS, PLUS, DOT, 101, 69} \cup 48..57 /\ acc # <<>> /\ acc[Len(acc)] = 48 ->
              Lax(w, p + 1, FALSE, acc)
         [] ~quoted /\ w[p] \in {MINUS} \cup 48..57 -> Lax(w, p + 1, FALSE, Append(acc, 48))
         [] OTHER -> Lax(w, p + 1, quoted, Append(acc, w[p]))
Hopeless(w) == Read(Lax(w, 1, FALSE, <<>>)).st = "bad"

(* A number that a double holds with all its digits. *)
Ordinary(v) == Len(v.ds) <= 15 /\ v.e \in -300..300
RECURSIVE Fits(_, _)
(* got is the value v, as far as numbers go that are not ordinary. *)
Fits(got, v) ==
  CASE v.k = "num" -> IF Ordinary(v) THEN got = v ELSE got.k \in {"num", "odd"}
    [] v.k = "arr" -> /\ got.k = "arr" /\ Len(got.es) = Len(v.es)
                      /\ \A j \in 1..Len(v.es) : Fits(got.es[j], v.es[j])
    [] v.k = "obj" -> /\ got.k = "obj" /\ Len(got.ms) = Len(v.ms)
                      /\ \A j \in 1..Len(v.ms) : got.ms[j].c = v.ms[j].c /\ Fits(got.ms[j].v, v.ms[j].v)
    [] OTHER -> got = v
=============================================================================
