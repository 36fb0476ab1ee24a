----------------------------- MODULE GenDocuments ----------------------------
(* Small documents for the real parsers: all short numbers, all strings of  *)
(* a few awkward pieces, all small structures in several layouts, and all   *)
(* short sequences of tokens, documents or not.                             *)
EXTENDS Document, TLC, Json, IOUtils, SequencesExt

CONSTANTS FracLen, StrLen, Toks, AnyToks

RECURSIVE Words(_, _), Spell(_, _, _), V(_), Elems(_), Mems(_), Flat(_)
Words(n, A) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1, A) IN W \cup {Append(w, c) : w \in W, c \in A}
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Ints == {<<48>>, <<49>>, <<53>>, <<49, 48>>, <<49, 48, 53>>, <<51, 50, 55, 54, 56>>}
Fracs == {<<>>} \cup {<<DOT>> \o f : f \in Words(FracLen, {48, 49, 53}) \ {<<>>}}
Exps == {<<>>} \cup {<<e>> \o s \o d : e \in {101, 69}, s \in {<<>>, <<PLUS>>, <<MINUS>>},
                                    d \in {<<48>>, <<49>>, <<50, 50>>, <<48, 49, 50>>, <<57, 57, 57>>}}
Numbers == {s \o i \o f \o e : s \in {<<>>, <<MINUS>>}, i \in Ints, f \in Fracs, e \in Exps}
U(a, b, c, d) == <<BACK, 117, a, b, c, d>>
Pieces == {<<97>>, <<32>>, <<47>>, <<126>>, <<123>>, <<91>>, <<93>>, <<94>>, <<35>>, <<33>>}
          \cup {<<BACK, c>> : c \in {QUOTE, BACK, 47, 98, 102, 110, 114, 116}}
          \cup {U(48, 48, 48, 48), U(48, 48, 102, 70), U(68, 55, 70, 70), U(101, 48, 48, 48), U(70, 70, 70, 70),
                U(100, 56, 48, 48) \o U(68, 67, 48, 48), U(68, 66, 70, 70) \o U(100, 70, 102, 102),
                U(68, 56, 51, 68) \o U(100, 101, 48, 48)}
Strings == {<<QUOTE>> \o Flat(ps) \o <<QUOTE>> : ps \in Words(StrLen, Pieces)}
Halves == {<<QUOTE>> \o Flat(ps) \o <<QUOTE>> :
             ps \in Words(3, {<<97>>, U(48, 48, 52, 49), <<BACK, BACK>>, U(100, 56, 48, 48), U(68, 67, 48, 48), U(100, 98, 70, 102), U(68, 102, 70, 70)})}
(* Four characters that may be digits, or not. *)
Quads == {<<QUOTE>> \o U(a, 48, b, c) \o <<QUOTE>> : a \in {48, 100, PLUS, MINUS, 32}, b \in {56, 103, 71, PLUS, 47, 58, 64, 96, 95}, c \in {48, 102, 120, PLUS, QUOTE}}
Printables == {<<QUOTE, c, QUOTE>> : c \in (32..126) \ {QUOTE, BACK}}

(* Token sequences of values of exactly n tokens. *)
A == <<QUOTE, 97, QUOTE>>  B == <<QUOTE, 98, QUOTE>>
T(c) == <<<<c>>>>
V(n) == IF n = 1 THEN {<<A>>, <<<<49>>>>, <<NULL>>}
        ELSE {T(OPENA) \o x \o T(CLOSEA) : x \in Elems(n - 2)} \cup {T(OPENO) \o x \o T(CLOSEO) : x \in Mems(n - 2)}
Elems(n) == IF n = 0 THEN {<<>>}
            ELSE V(n) \cup UNION {{x \o T(COMMA) \o y : x \in V(i), y \in Elems(n - i - 1)} : i \in 1..(n - 2)}
Mem(n) == IF n < 3 THEN {} ELSE {<<k>> \o T(COLON) \o x : k \in {A, B}, x \in V(n - 2)}
Mems(n) == IF n = 0 THEN {<<>>}
           ELSE Mem(n) \cup UNION {{x \o T(COMMA) \o y : x \in Mem(i), y \in Mems(n - i - 1)} : i \in 3..(n - 4)}
(* Layouts: what stands before each token and at the end. *)
Spell(ts, odd, even) == IF ts = <<>> THEN odd ELSE odd \o Head(ts) \o Spell(Tail(ts), even, odd)
Layouts == {<<<<>>, <<>>>>, <<<<32>>, <<>>>>, <<<<>>, <<10>>>>, <<<<9, 32>>, <<13, 10>>>>}
Structures == {Spell(ts, l[1], l[2]) : ts \in UNION {V(n) : n \in 1..Toks}, l \in Layouts}

Anything == {Flat(ts) : ts \in Words(AnyToks, {A, <<49>>, <<OPENA>>, <<CLOSEA>>, <<OPENO>>, <<CLOSEO>>, <<COMMA>>, <<COLON>>, <<32>>})}
            \cup Words(AnyToks, {48, 49, MINUS, PLUS, DOT, 101, 32})
            \cup {<<QUOTE>> \o w \o <<QUOTE>> : w \in Words(2, {97, QUOTE, BACK, 9, 110, 117, 48, 120})}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[w |-> w] : w \in Numbers \cup Strings \cup Halves \cup Quads \cup Printables \cup Structures \cup Anything}))
=============================================================================
