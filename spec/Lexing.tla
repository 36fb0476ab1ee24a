------------------------------- MODULE Lexing --------------------------------
(* Stage 0: from text, a sequence of code points, to tokens.                *)
(*                                                                          *)
(* The language borrows Rust's lexical syntax; this covers the part of it   *)
(* that programs are written in: white space, comments, ASCII identifiers   *)
(* (raw ones too), quoted strings with every escape, brackets and single    *)
(* punctuation.  Whatever else Rust has (numbers, characters, raw and byte  *)
(* strings, documentation comments, other alphabets) is "unsure": the       *)
(* specification does not say what such a text means.                       *)
EXTENDS Integers, Sequences

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
Chr(c) == CASE c \in 97..122 -> SubSeq(Lower, c - 96, c - 96)
            [] c \in 65..90 -> SubSeq(Upper, c - 64, c - 64)
            [] c \in 48..57 -> SubSeq(Digits, c - 47, c - 47)
            [] OTHER -> "_"
RECURSIVE Str(_)
Str(c) == IF c = <<>> THEN "" ELSE Chr(Head(c)) \o Str(Tail(c))

IsStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IsCont(c) == IsStart(c) \/ c \in 48..57
Spaces == (9..13) \cup {32, 133, 8206, 8207, 8232, 8233}
(* ( ) [ ] { } and the punctuation, as far as the language uses it *)
Marks == [c \in {33, 40, 41, 46, 47, 58, 59, 61, 124} |->
            CASE c = 33 -> "!" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 46 -> "." [] c = 47 -> "/"
              [] c = 58 -> ":" [] c = 59 -> ";" [] c = 61 -> "=" [] c = 124 -> "|"]
OtherMarks == {36, 37, 38, 42, 43, 44, 45, 60, 62, 63, 64, 94, 126, 91, 93, 123, 125}

At(x, p) == IF p <= Len(x) THEN x[p] ELSE -1
Lexed(w) == [st |-> "ok", w |-> w]
LexBad == [st |-> "bad"]
LexUnsure == [st |-> "unsure"]

RECURSIVE WordEnd(_, _)
(* the last position of the word that p is in *)
WordEnd(x, p) == IF IsCont(At(x, p + 1)) THEN WordEnd(x, p + 1) ELSE p
RECURSIVE LineEnd(_, _)
LineEnd(x, p) == IF At(x, p) \in {-1, 10} THEN p ELSE LineEnd(x, p + 1)
RECURSIVE CommentEnd(_, _, _)
(* p: inside depth comments; the position after the last, or 0 *)
CommentEnd(x, p, depth) ==
  IF depth = 0 THEN p
  ELSE IF At(x, p) = -1 THEN 0
  ELSE IF At(x, p) = 47 /\ At(x, p + 1) = 42 THEN CommentEnd(x, p + 2, depth + 1)
  ELSE IF At(x, p) = 42 /\ At(x, p + 1) = 47 THEN CommentEnd(x, p + 2, depth - 1)
  ELSE CommentEnd(x, p + 1, depth)

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
Scalar(v) == v \in 0..55295 \/ v \in 57344..1114111
Plainly == [c \in {34, 39, 48, 92, 110, 114, 116} |->
              CASE c = 34 -> 34 [] c = 39 -> 39 [] c = 48 -> 0 [] c = 92 -> 92
                [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9]
RECURSIVE Braced(_, _, _, _)
(* hex digits (underscores after the first) up to a closing brace *)
Braced(x, p, v, n) ==
  IF At(x, p) = 125 THEN IF n > 0 /\ Scalar(v) THEN [p |-> p + 1, v |-> v] ELSE [p |-> 0]
  ELSE IF At(x, p) = 95 /\ n > 0 THEN Braced(x, p + 1, v, n)
  ELSE IF Hex(At(x, p)) >= 0 /\ n < 6 THEN Braced(x, p + 1, v * 16 + Hex(At(x, p)), n + 1)
  ELSE [p |-> 0]
RECURSIVE Quoted(_, _, _)
(* the rest of a string from p: [st, p (after it), c] *)
Quoted(x, p, acc) ==
  LET c == At(x, p)
  IN IF c = -1 THEN LexBad
     ELSE IF c = 34 THEN [st |-> "ok", p |-> p + 1, c |-> acc]
     ELSE IF c = 13 THEN LexUnsure
     ELSE IF c # 92 THEN Quoted(x, p + 1, Append(acc, c))
     ELSE LET e == At(x, p + 1)
          IN IF e \in DOMAIN Plainly THEN Quoted(x, p + 2, Append(acc, Plainly[e]))
             ELSE IF e = 120 THEN
               LET a == Hex(At(x, p + 2))  b == Hex(At(x, p + 3))
               IN IF a \in 0..7 /\ b >= 0 THEN Quoted(x, p + 4, Append(acc, (a * 16) + b)) ELSE LexBad
             ELSE IF e = 117 THEN
               IF At(x, p + 2) # 123 THEN LexBad
               ELSE LET r == Braced(x, p + 3, 0, 0)
                    IN IF r.p = 0 THEN LexBad ELSE Quoted(x, r.p, Append(acc, r.v))
             ELSE IF e \in {10, 13} THEN LexUnsure
             ELSE LexBad

NeverRaw == {"_", "super", "self", "Self", "crate"}
RECURSIVE LexFrom(_, _, _)
LexFrom(x, p, acc) ==
  LET c == At(x, p)
      word(a, raw) ==
        LET e == WordEnd(x, a)
            t == SubSeq(x, a, e)
            s == Str(t)
        IN IF At(x, e + 1) > 127 /\ At(x, e + 1) \notin Spaces THEN LexUnsure
           ELSE IF ~raw /\ At(x, e + 1) \in {34, 35, 39} /\ s \in {"r", "b", "c", "br", "cr"} THEN LexUnsure
           ELSE IF raw /\ s \in NeverRaw THEN LexBad
           ELSE LexFrom(x, e + 1, Append(acc, [t |-> "id", c |-> t, s |-> s, raw |-> raw]))
  IN IF c = -1 THEN Lexed(acc)
     ELSE IF c \in Spaces THEN LexFrom(x, p + 1, acc)
     ELSE IF c = 47 /\ At(x, p + 1) = 47 THEN
       (* documentation comments are something else *)
       IF At(x, p + 2) = 33 \/ (At(x, p + 2) = 47 /\ At(x, p + 3) # 47) THEN LexUnsure
       ELSE LexFrom(x, LineEnd(x, p), acc)
     ELSE IF c = 47 /\ At(x, p + 1) = 42 THEN
       IF At(x, p + 2) = 33 \/ (At(x, p + 2) = 42 /\ At(x, p + 3) \notin {42, 47}) THEN LexUnsure
       ELSE LET e == CommentEnd(x, p + 2, 1) IN IF e = 0 THEN LexBad ELSE LexFrom(x, e, acc)
     ELSE IF c = 114 /\ At(x, p + 1) = 35 /\ IsStart(At(x, p + 2)) THEN word(p + 2, TRUE)
     ELSE IF IsStart(c) THEN word(p, FALSE)
     ELSE IF c = 34 THEN
       LET r == Quoted(x, p + 1, <<>>)
       IN IF r.st # "ok" THEN r
          (* a suffix would be part of the literal *)
          ELSE IF IsStart(At(x, r.p)) \/ (At(x, r.p) > 127 /\ At(x, r.p) \notin Spaces) THEN LexUnsure
          ELSE LexFrom(x, r.p, Append(acc, [t |-> "str", c |-> r.c]))
     ELSE IF c \in DOMAIN Marks THEN LexFrom(x, p + 1, Append(acc, [t |-> Marks[c]]))
     ELSE IF c \in OtherMarks THEN LexFrom(x, p + 1, Append(acc, [t |-> "bad"]))
     ELSE IF c \in {92, 96} THEN LexBad
     ELSE LexUnsure
Lex(x) == LexFrom(x, 1, <<>>)
=============================================================================
