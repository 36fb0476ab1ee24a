---------------------------- MODULE ParserMachine ----------------------------
(* A generated parser as a transition system: what one run of it does to    *)
(* the input, step by step.  Variables:                                     *)
(*   gram  the typed grammar      inp   the input                           *)
(*   todo  stack of work (top first): read a grammar in its environment,    *)
(*         match the rest of a literal, build a sequence or a branch        *)
(*   vals  stack of finished trees (top last)                               *)
(*   pos   characters consumed    res   "run" / "done" / a failure          *)
EXTENDS Parse

VARIABLES gram, inp, todo, vals, pos, res
mvars == <<gram, inp, todo, vals, pos, res>>

Read(tt, env) == [op |-> "read", tt |-> tt, env |-> env]

MachineInit(g, w) ==
  /\ gram = g /\ inp = w /\ todo = <<Read(g, <<>>)>> /\ vals = <<>> /\ pos = 0
  /\ res = [st |-> "run"]

Running == res.st = "run"
Top == todo[1]
Rest == Tail(todo)
Reads(k) == Running /\ todo # <<>> /\ Top.op = "read" /\ Top.tt.k = k
Fail(f) == res' = [st |-> "fail", f |-> f] /\ UNCHANGED <<gram, inp, todo, vals, pos>>
Push(v) == vals' = Append(vals, v)
AtEnd == pos >= Len(inp)
Peek == inp[pos + 1]

ReadEps ==
  /\ Reads("eps")
  /\ Push(TreeEps) /\ todo' = Rest
  /\ UNCHANGED <<gram, inp, pos, res>>
ReadLit ==
  /\ Reads("lit")
  /\ todo' = <<[op |-> "match", s |-> Top.tt.s, j |-> 0]>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, pos, res>>
Matching == Running /\ todo # <<>> /\ Top.op = "match"
MatchDone ==
  /\ Matching /\ Top.j = Len(Top.s)
  /\ Push(TreeLit(Top.s)) /\ todo' = Rest
  /\ UNCHANGED <<gram, inp, pos, res>>
MatchChar ==
  /\ Matching /\ Top.j < Len(Top.s) /\ ~AtEnd /\ Peek = Top.s[Top.j + 1]
  /\ pos' = pos + 1 /\ todo' = <<[Top EXCEPT !.j = @ + 1]>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, res>>
MatchEof ==
  /\ Matching /\ Top.j < Len(Top.s) /\ AtEnd /\ Fail(FailEof(pos))
MatchBad ==
  /\ Matching /\ Top.j < Len(Top.s) /\ ~AtEnd /\ Peek # Top.s[Top.j + 1]
  /\ Fail(FailString(pos, Append(SubSeq(Top.s, 1, Top.j), Peek), Top.s))
ReadCat ==
  /\ Reads("cat")
  /\ todo' = [j \in 1..Len(Top.tt.es) |-> Read(Top.tt.es[j], Top.env)]
             \o <<[op |-> "cat", m |-> Len(Top.tt.es)]>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, pos, res>>
BuildCat ==
  /\ Running /\ todo # <<>> /\ Top.op = "cat"
  /\ vals' = Append(SubSeq(vals, 1, Len(vals) - Top.m),
                    TreeCat(SubSeq(vals, Len(vals) - Top.m + 1, Len(vals))))
  /\ todo' = Rest /\ UNCHANGED <<gram, inp, pos, res>>
ReadAlt ==
  /\ Reads("alt") /\ Choose(Top.tt.es, inp, pos) # 0
  /\ LET j == Choose(Top.tt.es, inp, pos)
     IN todo' = <<Read(Top.tt.es[j], Top.env), [op |-> "alt", j |-> j]>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, pos, res>>
ReadAltBad ==
  /\ Reads("alt") /\ Choose(Top.tt.es, inp, pos) = 0 /\ ~AtEnd
  /\ Fail(FailBranch(pos, Peek, UNION {Top.tt.es[i].ty.first : i \in 1..Len(Top.tt.es)}))
ReadAltEof ==
  /\ Reads("alt") /\ Choose(Top.tt.es, inp, pos) = 0 /\ AtEnd /\ Fail(FailEof(pos))
BuildAlt ==
  /\ Running /\ todo # <<>> /\ Top.op = "alt"
  /\ vals' = Append(SubSeq(vals, 1, Len(vals) - 1), TreeAlt(Top.j, vals[Len(vals)]))
  /\ todo' = Rest /\ UNCHANGED <<gram, inp, pos, res>>
ReadFix ==
  /\ Reads("fix")
  /\ todo' = <<Read(Top.tt.e, Append(Top.env, [b |-> Top.tt.e, env |-> Top.env]))>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, pos, res>>
ReadVar ==
  /\ Reads("var")
  /\ LET c == Top.env[Len(Top.env) - Top.tt.i]
     IN todo' = <<Read(c.b, Append(c.env, c))>> \o Rest
  /\ UNCHANGED <<gram, inp, vals, pos, res>>
Accept ==
  /\ Running /\ todo = <<>> /\ AtEnd
  /\ res' = [st |-> "done", p |-> pos, t |-> vals[1]]
  /\ UNCHANGED <<gram, inp, todo, vals, pos>>
Leftover ==
  /\ Running /\ todo = <<>> /\ ~AtEnd /\ Fail(FailMore(pos))

MachineNext ==
  \/ ReadEps \/ ReadLit \/ MatchDone \/ MatchChar \/ MatchEof \/ MatchBad
  \/ ReadCat \/ BuildCat \/ ReadAlt \/ ReadAltBad \/ ReadAltEof \/ BuildAlt
  \/ ReadFix \/ ReadVar \/ Accept \/ Leftover

(* The text consumed so far is exactly what the finished trees and the      *)
(* matched part of the current literal spell.                               *)
Spelled ==
  FlattenSeq(vals, 1) \o
  (IF todo # <<>> /\ Top.op = "match" THEN SubSeq(Top.s, 1, Top.j) ELSE <<>>)
Lossless == Spelled = SubSeq(inp, 1, pos)
=============================================================================
