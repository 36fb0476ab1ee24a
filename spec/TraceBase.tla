------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares.  A trace file has one recorded    *)
(* case per line; cases are independent behaviours, so each is its own      *)
(* initial state and they are validated in parallel.  A case that no        *)
(* behaviour of the specification explains is reported and ends there: the  *)
(* others are still examined.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* What is being decided: the property the check was started for.           *)
Facet == IOEnv.FACET

Report(case, want) == PrintT("REJECT " \o ToJson([case |-> case, want |-> want]))
SetOf(seq) == {seq[j] : j \in 1..Len(seq)}
=============================================================================
