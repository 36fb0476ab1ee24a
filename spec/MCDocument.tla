------------------------------ MODULE MCDocument -----------------------------
(* A machine that takes a document token by token, keeping the open arrays  *)
(* and objects on a stack, against the reading of the whole text; and       *)
(* printing a value in any layout against reading it.                       *)
EXTENDS Document, TLC

CONSTANT MaxTokens

Str(s) == <<QUOTE>> \o s \o <<QUOTE>>
NumT == <<MINUS, 48, DOT, 53, 48>>
(* Tokens that are whole values, and what they denote. *)
Scalars == {[t |-> NULL, v |-> [k |-> "null"]], [t |-> TRU, v |-> [k |-> "bool", b |-> TRUE]],
            [t |-> NumT, v |-> [k |-> "num", neg |-> TRUE, ds |-> <<5>>, e |-> 0]],
            [t |-> Str(<<97>>), v |-> [k |-> "str", c |-> <<97>>]],
            [t |-> Str(<<BACK, 117, 48, 48, 54, 49>>), v |-> [k |-> "str", c |-> <<97>>]],
            [t |-> Str(<<97, 97>>), v |-> [k |-> "str", c |-> <<97, 97>>]]}
Marks == {<<c>> : c \in {OPENA, CLOSEA, OPENO, CLOSEO, COMMA, COLON}}

VARIABLES toks, stack,
          want    \* "value" | "value or ]" | "key" | "key or }" | "colon" | "more" | "end" | "bad"
vars == <<toks, stack, want>>
(* Stack entries: [k |-> "arr", es], [k |-> "obj", ms, key]; the bottom one, *)
(* an array, holds the document.                                            *)
Init == toks = <<>> /\ stack = <<[k |-> "arr", es |-> <<>>]>> /\ want = "value"

Depth == Len(stack)
TopOf == stack[Depth]
Rest == SubSeq(stack, 1, Depth - 1)
Into(base, v) ==   \* v completed inside the top of base
  LET t == base[Len(base)]  b == SubSeq(base, 1, Len(base) - 1)
  IN Append(b, IF t.k = "arr" THEN [t EXCEPT !.es = Append(@, v)] ELSE [t EXCEPT !.ms = Put(@, t.key, v)])
Follow(base) == IF Len(base) = 1 THEN "end" ELSE "more"
Scalar(s) ==
  \/ want \in {"value", "value or ]"} /\ stack' = Into(stack, s.v) /\ want' = Follow(stack)
  \/ want \in {"key", "key or }"} /\ s.v.k = "str" /\ stack' = Append(Rest, [TopOf EXCEPT !.key = s.v.c]) /\ want' = "colon"
Open(t) ==
  /\ want \in {"value", "value or ]"}
  /\ \/ t = <<OPENA>> /\ stack' = Append(stack, [k |-> "arr", es |-> <<>>]) /\ want' = "value or ]"
     \/ t = <<OPENO>> /\ stack' = Append(stack, [k |-> "obj", ms |-> <<>>, key |-> <<>>]) /\ want' = "key or }"
Shut(t) ==
  \/ /\ t = <<CLOSEA>> /\ TopOf.k = "arr" /\ Depth > 1 /\ want \in {"value or ]", "more"}
     /\ stack' = Into(Rest, [k |-> "arr", es |-> TopOf.es]) /\ want' = Follow(Rest)
  \/ /\ t = <<CLOSEO>> /\ TopOf.k = "obj" /\ want \in {"key or }", "more"}
     /\ stack' = Into(Rest, [k |-> "obj", ms |-> TopOf.ms]) /\ want' = Follow(Rest)
Mark(t) ==
  /\ stack' = stack
  /\ \/ t = <<COMMA>> /\ want = "more" /\ want' = IF TopOf.k = "arr" THEN "value" ELSE "key"
     \/ t = <<COLON>> /\ want = "colon" /\ want' = "value"
Takes(t) == \/ \E s \in Scalars : s.t = t /\ want \in {"value", "value or ]"}
            \/ \E s \in Scalars : s.t = t /\ want \in {"key", "key or }"} /\ s.v.k = "str"
            \/ t \in {<<OPENA>>, <<OPENO>>} /\ want \in {"value", "value or ]"}
            \/ t = <<CLOSEA>> /\ TopOf.k = "arr" /\ Depth > 1 /\ want \in {"value or ]", "more"}
            \/ t = <<CLOSEO>> /\ TopOf.k = "obj" /\ want \in {"key or }", "more"}
            \/ t = <<COMMA>> /\ want = "more"
            \/ t = <<COLON>> /\ want = "colon"
More == want # "bad" /\ Len(toks) < MaxTokens
ReadScalar == More /\ \E s \in Scalars : toks' = Append(toks, s.t) /\ Scalar(s)
ReadOpen == More /\ \E t \in Marks : toks' = Append(toks, t) /\ Open(t)
ReadShut == More /\ \E t \in Marks : toks' = Append(toks, t) /\ Shut(t)
ReadMark == More /\ \E t \in Marks : toks' = Append(toks, t) /\ Mark(t)
ReadBad == More /\ \E t \in Marks \cup {s.t : s \in Scalars} :
             ~Takes(t) /\ toks' = Append(toks, t) /\ want' = "bad" /\ UNCHANGED stack
Next == ReadScalar \/ ReadOpen \/ ReadShut \/ ReadMark \/ ReadBad
Spec == Init /\ [][Next]_vars

RECURSIVE Spell(_, _)
Spell(ts, gap) == IF ts = <<>> THEN gap ELSE gap \o Head(ts) \o Spell(Tail(ts), gap)
Agree == \A gap \in {<<>>, <<32>>, <<13, 10, 9>>} :
           LET r == Read(Spell(toks, gap))
           IN IF want = "end" THEN r = Outcome("ok", stack[1].es[1]) ELSE r.st = "bad"

(* Printing: gap between tokens, and a way to write characters. *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
UnitText(u) == <<BACK, 117, Hex(u \div 4096), Hex((u \div 256) % 16), Hex((u \div 16) % 16), Hex(u % 16)>>
CharText(c, plain) ==
  IF c > 65535 THEN UnitText(55296 + ((c - 65536) \div 1024)) \o UnitText(56320 + ((c - 65536) % 1024))
  ELSE IF plain /\ c >= 32 /\ c \notin {QUOTE, BACK} THEN <<c>> ELSE UnitText(c)
RECURSIVE Flat(_), Show(_, _, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Quoted(s, plain) == <<QUOTE>> \o Flat([j \in 1..Len(s) |-> CharText(s[j], plain)]) \o <<QUOTE>>
Show(v, gap, plain) ==
  CASE v.k = "null" -> NULL
    [] v.k = "bool" -> IF v.b THEN TRU ELSE FALS
    [] v.k = "num"  -> (IF v.neg THEN <<MINUS>> ELSE <<>>) \o <<48, DOT>>
                       \o (IF v.ds = <<>> THEN <<48>> ELSE [j \in 1..Len(v.ds) |-> 48 + v.ds[j]])
                       \o <<69>> \o (IF v.e < 0 THEN <<MINUS, 48 - v.e>> ELSE <<48 + v.e>>)
    [] v.k = "str"  -> Quoted(v.c, plain)
    [] v.k = "arr"  -> <<OPENA>> \o gap
                       \o Flat([j \in 1..Len(v.es) |-> (IF j > 1 THEN <<COMMA>> \o gap ELSE <<>>) \o Show(v.es[j], gap, plain) \o gap])
                       \o <<CLOSEA>>
    [] v.k = "obj"  -> <<OPENO>> \o gap
                       \o Flat([j \in 1..Len(v.ms) |-> (IF j > 1 THEN <<COMMA>> \o gap ELSE <<>>) \o Quoted(v.ms[j].c, plain)
                                                       \o gap \o <<COLON>> \o gap \o Show(v.ms[j].v, gap, plain) \o gap])
                       \o <<CLOSEO>>
Awkward == {<<>>, <<0>>, <<34, 92, 47>>, <<10, 233, 127>>, <<65536, 1114111>>, <<55295, 57344>>}
Leaves == {[k |-> "null"], [k |-> "bool", b |-> FALSE], [k |-> "num", neg |-> TRUE, ds |-> <<>>, e |-> 0],
           [k |-> "num", neg |-> FALSE, ds |-> <<1, 0, 7>>, e |-> -3], [k |-> "num", neg |-> TRUE, ds |-> <<9>>, e |-> 9]}
          \cup {[k |-> "str", c |-> s] : s \in Awkward}
Around(V) == {[k |-> "arr", es |-> <<>>], [k |-> "obj", ms |-> <<>>]}
             \cup {[k |-> "arr", es |-> <<x, y>>] : x \in V, y \in Leaves}
             \cup {[k |-> "obj", ms |-> Put(<<[c |-> <<34, 92, 47>>, v |-> x]>>, s, y)] : s \in Awkward, x \in V, y \in Leaves}
ShownIsRead ==
  toks # <<>> \/
  \A v \in Leaves \cup Around(Leaves) \cup Around({[k |-> "arr", es |-> <<x>>] : x \in Leaves}) :
    \A gap \in {<<>>, <<9, 32>>}, plain \in BOOLEAN : Read(gap \o Show(v, gap, plain) \o gap) = Outcome("ok", v)
(* Ways to write the same number. *)
SameNumbers ==
  toks # <<>> \/
  LET N(s) == Read(s).v
  IN /\ N(<<49, 48>>) = N(<<49, 69, 49>>) /\ N(<<49, 48>>) = N(<<49, 48, DOT, 48, 48>>)
     /\ N(<<49, 48>>) = N(<<48, DOT, 49, 101, PLUS, 48, 50>>) /\ N(<<49, 48>>) = N(<<49, 48, 48, 101, MINUS, 49>>)
     /\ N(<<48>>) = N(<<48, DOT, 48, 69, 57>>) /\ N(<<MINUS, 48>>) # N(<<48>>)
     /\ \A s \in {<<48, 49>>, <<MINUS>>, <<49, DOT>>, <<DOT, 49>>, <<49, 69>>, <<49, 69, MINUS>>, <<PLUS, 49>>, <<49, DOT, 69, 49>>} : Read(s).st = "bad"
(* Halves of pairs. *)
Halves ==
  toks # <<>> \/
  LET hi == UnitText(55297)  lo == UnitText(56321)  st(s) == Read(Str(s)).st
  IN /\ st(hi \o lo) = "ok" /\ st(hi) = "lone" /\ st(lo) = "lone" /\ st(lo \o hi) = "odd" /\ st(hi \o hi \o lo) = "lone"
     /\ st(hi \o lo \o hi) = "odd" /\ st(hi \o lo \o lo) = "lone" /\ st(hi \o UnitText(97) \o lo) = "lone"
     /\ st(hi \o <<97>> \o lo) = "lone" /\ Read(<<OPENA>> \o Str(hi) \o <<COMMA, 49>>).st = "bad"
     /\ Read(<<OPENA, 49, COMMA>> \o Str(hi) \o <<CLOSEA>>).st = "lone"
     /\ Read(<<OPENA>> \o Str(hi) \o <<COMMA>> \o Str(lo \o hi) \o <<CLOSEA>>).st = "lone"
     /\ Read(<<OPENO>> \o Str(lo \o hi) \o <<COLON, 49, CLOSEO>>).st = "odd"
=============================================================================
