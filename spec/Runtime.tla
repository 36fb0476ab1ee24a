------------------------------- MODULE Runtime -------------------------------
(* The runtime library's input stream and the reading primitives on it.     *)
(* Do(op, w, p): the effect of one call on input w of which p characters    *)
(* are consumed: [p |-> consumed after, r |-> result].  Calls are records:  *)
(*   [op |-> "next"] [op |-> "peek"] [op |-> "pos"]                         *)
(*   [op |-> "str", s]           consume the literal s                      *)
(*   [op |-> "skip", set, n]     skip while in set, n characters at most;   *)
(*        the result has the characters the predicate was asked about       *)
(*   [op |-> "chars", set, n]    fill a buffer of n with characters of set  *)
(*   [op |-> "items", item, sep, stop, follow, first]                       *)
(*        separated items, each read by the call item (str or chars), up to *)
(*        the stop character; follow and first are what errors mention      *)
EXTENDS Integers, Sequences, FiniteSets, Position

AtEnd(w, p) == p >= Len(w)
At(w, p) == w[p + 1]

Fine(x)            == [st |-> "ok", x |-> x]
Eof(p)             == [st |-> "err", e |-> "eof", p |-> p]
Branch(p, c, exp)  == [st |-> "err", e |-> "branch", p |-> p, got |-> <<c>>, exp |-> exp]
Mismatch(p, g, s)  == [st |-> "err", e |-> "string", p |-> p, got |-> g, exp |-> s]
Res(p, r)          == [p |-> p, r |-> r]

SetOfSeq(s) == {s[j] : j \in 1..Len(s)}

RECURSIVE Common(_, _, _, _)
Common(w, p, s, j) ==
  IF j < Len(s) /\ ~AtEnd(w, p + j) /\ At(w, p + j) = s[j + 1] THEN Common(w, p, s, j + 1) ELSE j
Str(w, p, s) ==
  LET j == Common(w, p, s, 0)
  IN Res(p + j, IF j = Len(s) THEN Fine(<<>>)
                ELSE IF AtEnd(w, p + j) THEN Eof(p + j)
                ELSE Mismatch(p + j, Append(SubSeq(s, 1, j), At(w, p + j)), s))
RECURSIVE Run(_, _, _)
Run(w, p, S) == IF ~AtEnd(w, p) /\ At(w, p) \in S THEN Run(w, p + 1, S) ELSE p
Skip(w, p, set, n) ==
  LET far == Run(w, p, SetOfSeq(set))
      q == IF far - p < n THEN far ELSE p + n
  IN Res(q, Fine(SubSeq(w, p + 1, IF AtEnd(w, q) THEN q ELSE q + 1)))
Chars(w, p, set, n) ==
  LET q == Run(w, p, SetOfSeq(set))
      m == IF q - p < n THEN q - p ELSE n
      got == SubSeq(w, p + 1, p + m)
  IN [p |-> p + m, buf |-> got,
      r |-> IF m = n THEN Fine(got)
            ELSE IF AtEnd(w, p + m) THEN Eof(p + m)
            ELSE Branch(p + m, At(w, p + m), set)]
Item(w, p, c) == IF c.op = "str" THEN Str(w, p, c.s) ELSE Chars(w, p, c.set, c.n)

(* The results in order; an error is the last one. *)
RECURSIVE Items(_, _, _, _)
Items(w, p, c, acc) ==
  IF AtEnd(w, p) \/ At(w, p) = c.stop THEN Res(p, acc)
  ELSE LET i == Item(w, p, c.item)  q == i.p
           bad(at, e) == Res(at, Append(acc, e))
           good(at) == Items(w, at, c, Append(acc, i.r))
       IN IF i.r.st = "err" THEN bad(q, i.r)
          ELSE IF AtEnd(w, q) THEN bad(q, Eof(q))
          ELSE IF At(w, q) = c.sep
          THEN IF AtEnd(w, q + 1) THEN bad(q + 1, Eof(q + 1))
               ELSE IF At(w, q + 1) \in SetOfSeq(c.first) THEN good(q + 1)
               ELSE bad(q + 1, Branch(q + 1, At(w, q + 1), c.first))
          ELSE IF At(w, q) = c.stop THEN good(q)
          ELSE bad(q, Branch(q, At(w, q), c.follow))

Do(c, w, p) ==
  CASE c.op = "next" -> IF AtEnd(w, p) THEN Res(p, <<>>) ELSE Res(p + 1, <<At(w, p)>>)
    [] c.op = "peek" -> Res(p, IF AtEnd(w, p) THEN <<>> ELSE <<At(w, p)>>)
    [] c.op = "pos"  -> Res(p, <<>>)
    [] c.op = "str"  -> Str(w, p, c.s)
    [] c.op = "skip" -> Skip(w, p, c.set, c.n)
    [] c.op = "chars" -> LET x == Chars(w, p, c.set, c.n) IN Res(x.p, x.r)
    [] c.op = "items" -> Items(w, p, c, <<>>)
=============================================================================
