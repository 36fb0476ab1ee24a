---------------------------- MODULE TraceRuntime -----------------------------
(* Recorded histories of calls on one input stream.  A case is              *)
(*   [w |-> source, ops |-> <<call, ...>>, obs |-> <<observation, ...>>]    *)
(* each observation the call's result, the place reported after it, and how *)
(* many characters have been pulled from the source so far.  The state is   *)
(* how far the history has been followed and how much the specification     *)
(* says is consumed.                                                        *)
EXTENDS TraceBase, Runtime

VARIABLES case, done, p
vars == <<case, done, p>>
Ev == Trace[case]

Init == case \in 1..Len(Trace) /\ done = 0 /\ p = 0

Place(o) == [line |-> o.line, col |-> o.col]
Same(want, got, w) ==
  /\ want.st = got.st
  /\ want.st = "ok" => want.x = got.x
  /\ want.st = "err" =>
       /\ want.e = got.e /\ PosOf(w, want.p) = [line |-> got.line, col |-> got.col]
       /\ want.e = "branch" => want.got = got.got /\ SetOfSeq(want.exp) = SetOfSeq(got.exp)
       /\ want.e = "string" => want.got = got.got /\ want.exp = got.exp
Agrees(c, want, o, w) ==
  CASE c.op \in {"next", "peek"} -> want.r = o.r
    [] c.op = "pos" -> TRUE
    [] c.op = "items" -> /\ Len(want.r) = Len(o.r)
                         /\ \A j \in 1..Len(o.r) : Same(want.r[j], o.r[j], w)
    [] OTHER -> Same(want.r, o.r, w)
(* What a call on the stream itself must show, whatever is called. *)
Stream(c, want, o, w) == Place(o) = PosOf(w, want.p) /\ o.pulled <= want.p + 1 /\ o.pulled >= want.p

Step ==
  /\ done >= 0 /\ done < Len(Ev.ops)
  /\ LET c == Ev.ops[done + 1]  want == Do(c, Ev.w, p)  o == Ev.obs[done + 1]
     IN IF /\ Len(Ev.obs) >= done + 1 /\ o.st = "ran"
           /\ Agrees(c, want, o, Ev.w) /\ Stream(c, want, o, Ev.w)
        THEN done' = done + 1 /\ p' = want.p
        ELSE Report(case, [call |-> done + 1, op |-> c, want |-> want, at |-> PosOf(Ev.w, want.p)])
             /\ done' = -1 /\ p' = p
  /\ UNCHANGED case
Next == Step
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct >= Len(Trace)
=============================================================================
