------------------------------ MODULE MCLexing -------------------------------
(* Writing tokens down, in every spelling and with every gap between them,  *)
(* one after the other: the text always reads as the tokens written.        *)
EXTENDS Lexing, FiniteSets

CONSTANTS MaxTokens

Mark(c) == [t |-> Marks[c]]
Word(c, raw) == [t |-> "id", c |-> c, s |-> Str(c), raw |-> raw]
Text(c) == [t |-> "str", c |-> c]
(* tokens with their spellings *)
Spellings ==
  {<<Mark(c), <<c>>>> : c \in DOMAIN Marks}
  \cup {<<Word(w, FALSE), w>> : w \in {<<95>>, <<120>>, <<114>>, <<108, 101, 116>>, <<97, 95, 49>>}}
  \cup {<<Word(w, TRUE), <<114, 35>> \o w>> : w \in {<<120>>, <<108, 101, 116>>}}
  \cup {<<Text(<<>>), <<34, 34>>>>, <<Text(<<97>>), <<34, 97, 34>>>>,
        <<Text(<<97>>), <<34, 92, 120, 54, 49, 34>>>>,                     \* "\x61"
        <<Text(<<97>>), <<34, 92, 117, 123, 48, 54, 95, 49, 125, 34>>>>,   \* "\u{06_1}"
        <<Text(<<34>>), <<34, 92, 34, 34>>>>, <<Text(<<92>>), <<34, 92, 92, 34>>>>,
        <<Text(<<47, 47>>), <<34, 47, 47, 34>>>>,                          \* "//"
        <<Text(<<42, 47>>), <<34, 42, 47, 34>>>>,
        <<Text(<<10>>), <<34, 10, 34>>>>, <<Text(<<10>>), <<34, 92, 110, 34>>>>,
        <<Text(<<128512>>), <<34, 128512, 34>>>>,
        <<Text(<<128512>>), <<34, 92, 117, 123, 49, 70, 54, 48, 48, 125, 34>>>>}
Gaps == {<<>>, <<32>>, <<10>>, <<8206>>, <<47, 47, 10>>, <<47, 47, 34, 10>>, <<47, 42, 42, 47>>,
         <<47, 42, 32, 47, 42, 42, 47, 34, 42, 47>>}
Wordy(t) == t.t \in {"id", "str"}
(* which gaps keep two tokens apart: words need one, and a slash swallows *)
Fits(a, g) == ~(a.t = "/" /\ g # <<>> /\ g[1] = 47)
Apart(a, g, b) == /\ g = <<>> => ~(Wordy(a) /\ Wordy(b)) /\ ~(a.t = "/" /\ b.t = "/")
                  /\ Fits(a, g)

VARIABLES toks, text, gap
vars == <<toks, text, gap>>
Init == toks = <<>> /\ \E g \in Gaps : text = g /\ gap = g
Write ==
  /\ Len(toks) < MaxTokens
  /\ \E sp \in Spellings, g \in Gaps :
       /\ toks # <<>> => Apart(toks[Len(toks)], gap, sp[1])
       /\ Fits(sp[1], g)
       /\ toks' = Append(toks, sp[1])
       /\ text' = text \o sp[2] \o g
       /\ gap' = g
Spec == Init /\ [][Write]_vars

ReadsAsWritten == Lex(text) = Lexed(toks)
(* Cut anywhere, the text reads as fewer tokens, is broken, or ends inside  *)
(* something: it never reads as more, but for the slash a comment began with.*)
CutReadsAsLess ==
  Len(toks) < MaxTokens => \A k \in 0..Len(text) :
    LET l == Lex(SubSeq(text, 1, k))
    IN l.st = "ok" => Len(l.w) <= Len(toks) + (IF k > 0 /\ text[k] = 47 THEN 1 ELSE 0)
=============================================================================
