-------------------------------- MODULE Tools --------------------------------
(* The command line tools and the macro around the compiler.                *)
(* p: what the language makes of the text, [st |-> "ok"] or an error;       *)
(* fault: what goes wrong around the tool:                                  *)
(*   "none"    nothing          "utf8"   the input is no text               *)
(*   "slow"    the input comes in pieces, with pauses                       *)
(*   "full"    standard output takes nothing more                           *)
(*   "closed"  nobody reads standard output any more                        *)
(* Result: exit status, what is on standard output and what is said on      *)
(* standard error ("diag" is the library's diagnostic, "io" anything else). *)
EXTENDS Sequences

Ends(st, out, err) == [st |-> st, out |-> out, err |-> err]
Deliver(p, fault) ==
  IF fault = "utf8" THEN Ends(1, "none", "io")
  ELSE IF p.st # "ok" THEN Ends(1, "none", "diag")
  ELSE IF fault \in {"none", "slow"} THEN Ends(0, "code", "none")
  ELSE Ends(1, "none", "io")

(* The macro: a parser, or one diagnostic. *)
Expands(p) == IF p.st = "ok" THEN [ok |-> TRUE, err |-> "none"] ELSE [ok |-> FALSE, err |-> "diag"]
=============================================================================
