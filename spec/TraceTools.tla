----------------------------- MODULE TraceTools ------------------------------
(* Recorded runs of the command line tools and of the macro.  Events:       *)
(*   [ev |-> "cli", tool, toks, common, fault, st, out, err, lib, msg]      *)
(*   [ev |-> "bytes", tool, fault, st, out, err, lib]  input that is no     *)
(*        sequence of tokens, or no text at all                             *)
(*   [ev |-> "macro", toks, ok, err, lib, runs, ref]   runs of the parser   *)
(*        the macro made, and of the one the library made                   *)
(*   [ev |-> "table", rows]   all diagnostics: kind of error and text       *)
(* lib: what the library itself makes of the text.                          *)
EXTENDS TraceBase, Compile, Tools

Fuel == 120

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]
Judge(ok, want) == IF ok THEN stage' = "explained" ELSE Report(case, want) /\ stage' = "rejected"

Init == case \in 1..Len(Trace) /\ stage = "given"
Given(ev) == stage = "given" /\ Ev.ev = ev /\ UNCHANGED case

InCommon(w) == \A p \in 1..Len(w) :
                 /\ (p > 1 /\ Word(w, p, "_")) => ~(Is(w, p - 1, ":") \/ Word(w, p - 1, "let"))
                 /\ (AnyId(w, p) /\ w[p].s \in Keywords \ {"_"}) => p = 1 \/ Is(w, p - 1, ";")
(* The self-hosted tool is held to the language where it speaks it, and to  *)
(* the library beyond.                                                      *)
InScope == Ev.tool = "chomp" \/ (Ev.common /\ InCommon(Ev.toks))
Brief(x) == IF x.st = "ok" THEN [st |-> "ok"] ELSE x
Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
NamesIt(w, msg) == LET f == FrontEnd(w) IN f.st = "undeclared" => Within(f.c, msg)

Same(want) == Ev.st = want.st /\ Ev.out = want.out /\ Ev.err = want.err
CommandLine ==
  /\ Given("cli")
  /\ LET want == IF InScope THEN Compile(Ev.toks, Fuel) ELSE Ev.lib
     IN Judge(/\ Same(Deliver(want, Ev.fault))
              /\ (InScope /\ Ev.fault = "none" /\ want.st = "err") => NamesIt(Ev.toks, Ev.msg), Brief(want))
Bytes == Given("bytes") /\ Judge(Same(Deliver(Ev.lib, Ev.fault)), Deliver(Ev.lib, Ev.fault))
Macro ==
  /\ Given("macro")
  /\ LET want == Compile(Ev.toks, Fuel)  e == Expands(want)
     IN Judge(Ev.ok = e.ok /\ Ev.err = e.err /\ Ev.runs = Ev.ref, Brief(want))
Table == Given("table")
  /\ Judge(\A i, j \in 1..Len(Ev.rows) :
             /\ Ev.rows[i].m # <<>>
             /\ Ev.rows[i].m = Ev.rows[j].m => Ev.rows[i].e = Ev.rows[j].e, "different errors, same words")
Next == CommandLine \/ Bytes \/ Macro \/ Table
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
