------------------------------ MODULE MCRuntime ------------------------------
(* The input stream with its one-character buffer as a machine: characters  *)
(* are pulled from the source one at a time; the place is kept by counting. *)
(* Every interleaving of next, peek and position queries on every short     *)
(* source.                                                                  *)
EXTENDS Runtime, Runs, TLC

CONSTANTS MaxLen, MaxOps

Chars4 == {97, CR, LF, NEL}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1) IN W \cup {Append(w, c) : w \in W, c \in Chars4}

VARIABLES src, pulled, buf, line, col, out, ops
vars == <<src, pulled, buf, line, col, out, ops>>

Init == /\ src \in Words(MaxLen) /\ pulled = 0 /\ buf = <<>>
        /\ line = 1 /\ col = 0 /\ out = <<>> /\ ops = 0

Ended == pulled = Len(src)
(* Fill the buffer if it is empty. *)
Filled(b, k) == IF b = <<>> /\ k < Len(src) THEN [b |-> <<src[k + 1]>>, k |-> k + 1] ELSE [b |-> b, k |-> k]

Peek == /\ LET f == Filled(buf, pulled) IN buf' = f.b /\ pulled' = f.k
        /\ UNCHANGED <<src, line, col, out>>
NextNone == /\ Filled(buf, pulled).b = <<>> /\ UNCHANGED <<src, pulled, buf, line, col, out>>
NextChar ==
  /\ Filled(buf, pulled).b # <<>>
  /\ LET f == Filled(buf, pulled)
         c == f.b[1]
         g == IF c = CR THEN Filled(<<>>, f.k) ELSE [b |-> <<>>, k |-> f.k]
         ends == c \in Breaks \/ (c = CR /\ g.b # <<LF>>)
     IN /\ out' = Append(out, c) /\ buf' = g.b /\ pulled' = g.k
        /\ line' = IF ends THEN line + 1 ELSE line
        /\ col' = IF ends THEN 0 ELSE col + 1
  /\ UNCHANGED src
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Peek \/ NextNone \/ NextChar)
Spec == Init /\ [][Next]_vars

Consumed == Len(out)
PlaceIsFunction == [line |-> line, col |-> col] = PosOf(src, Consumed)
InOrder == out = SubSeq(src, 1, Consumed)
OneAhead == pulled \in Consumed..(Consumed + 1)
(* The same by runs. *)
ByRuns ==
  ops = 0 => LET rs == RunsOf(src, 1, <<>>)
             IN \A k \in 1..Len(rs) : Places(rs)[k] = PosOf(src, Length(rs, k))
BufferIsNext == buf = SubSeq(src, Consumed + 1, pulled)

---------------------------------------------------------------------------
(* The primitives against what they are for (checked in each initial state).*)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
From(p) == SubSeq(src, p + 1, Len(src))
Lits == {w \in Words(2) : TRUE}
StrContract ==
  ops = 0 => \A p \in 0..Len(src), s \in Lits :
    LET x == Str(src, p, s)  eaten == SubSeq(src, p + 1, x.p)
    IN /\ x.r.st = "ok" <=> Prefix(s, From(p))
       /\ x.r.st = "ok" => x.p = p + Len(s)
       /\ Prefix(eaten, s)
       /\ x.r.st = "err" => x.r.p = x.p /\ (x.p < Len(src) => src[x.p + 1] # s[Len(eaten) + 1])
       /\ x.r.st = "err" /\ x.r.e = "eof" <=> x.r.st = "err" /\ x.p = Len(src)
Sets == {<<97>>, <<97, CR>>, <<>>, <<LF, NEL>>}
SkipContract ==
  ops = 0 => \A p \in 0..Len(src), s \in Sets, n \in 0..3 :
    LET x == Skip(src, p, s, n)  q == x.p
    IN /\ \A j \in (p + 1)..q : src[j] \in SetOfSeq(s)
       /\ q - p <= n
       /\ (q < Len(src) /\ q - p < n) => src[q + 1] \notin SetOfSeq(s)
       /\ x.r.x = SubSeq(src, p + 1, p + Len(x.r.x)) /\ Len(x.r.x) = (q - p) + (IF q < Len(src) THEN 1 ELSE 0)
CharsContract ==
  ops = 0 => \A p \in 0..Len(src), s \in Sets, n \in 0..3 :
    LET x == Chars(src, p, s, n)
        all == p + n <= Len(src) /\ \A j \in (p + 1)..(p + n) : src[j] \in SetOfSeq(s)
    IN /\ x.r.st = "ok" <=> all
       /\ all => x.p = p + n /\ x.buf = SubSeq(src, p + 1, p + n)
       /\ ~all => /\ \A j \in (p + 1)..x.p : src[j] \in SetOfSeq(s)
                  /\ x.p < Len(src) => src[x.p + 1] \notin SetOfSeq(s)
                  /\ x.r.p = x.p
(* With one-character items: accepted exactly when items and separators     *)
(* alternate, starting and ending with an item.                             *)
ItemCall == [op |-> "items", item |-> [op |-> "chars", set |-> <<97>>, n |-> 1],
             sep |-> LF, stop |-> NEL, follow |-> <<LF, NEL>>, first |-> <<97>>]
Alternate(s) == \A j \in 1..Len(s) : s[j] = (IF j % 2 = 1 THEN 97 ELSE LF)
ItemsContract ==
  ops = 0 => \A p \in 0..Len(src) :
    LET x == Do(ItemCall, src, p)
        body == SubSeq(src, p + 1, x.p)
        bad == x.r # <<>> /\ x.r[Len(x.r)].st = "err"
    IN /\ ~bad => /\ Alternate(body) /\ (body = <<>> \/ Len(body) % 2 = 1)
                  /\ Len(x.r) = (Len(body) + 1) \div 2
                  /\ x.p = Len(src) \/ src[x.p + 1] = NEL
                  /\ body # <<>> => x.p < Len(src)
       /\ bad => /\ Alternate(body) /\ x.r[Len(x.r)].p = x.p
                 /\ \A j \in 1..(Len(x.r) - 1) : x.r[j].st = "ok"
=============================================================================
