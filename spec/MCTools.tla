------------------------------- MODULE MCTools -------------------------------
(* A tool as a process: it reads until the input ends, however it arrives,  *)
(* compiles, writes through a buffer to a device that may fill up at any    *)
(* point, and exits.  However it goes, what the outside sees is one of the  *)
(* permitted ends; what is compiled is the whole of the input, and status 0 *)
(* means that all of the code arrived.                                      *)
EXTENDS Tools, Integers, TLC

CONSTANTS MaxCode, Buffer, MaxText

VARIABLES text, len, sent, seen, ended, prog, room, pc, buf, dev, said, status
vars == <<text, len, sent, seen, ended, prog, room, pc, buf, dev, said, status>>
inputs == <<sent, seen, ended>>

Progs == {[st |-> "ok", len |-> n] : n \in 1..MaxCode} \cup {[st |-> "err"]}
Init == /\ text \in {"text", "bytes"} /\ len \in 1..MaxText /\ sent = 0 /\ seen = 0 /\ ended = FALSE /\ prog \in Progs /\ room \in 0..(MaxCode + 1)
        /\ pc = "read" /\ buf = 0 /\ dev = 0 /\ said = "none" /\ status = -1
Fail(what) == said' = what /\ pc' = "failed" /\ UNCHANGED <<buf, dev, status>>
(* The other side sends some more, or has sent everything. *)
Send == /\ ~ended
        /\ IF sent = len THEN ended' = TRUE /\ sent' = sent ELSE sent' \in (sent + 1)..len /\ ended' = ended
        /\ UNCHANGED <<seen, pc, buf, dev, said, status>>
Receive == /\ pc = "read" /\ seen < sent
           /\ seen' \in (seen + 1)..sent /\ UNCHANGED <<sent, ended, pc, buf, dev, said, status>>
Read == /\ pc = "read" /\ ended /\ seen = sent
        /\ IF text = "bytes" THEN Fail("io") ELSE pc' = "compile" /\ UNCHANGED <<buf, dev, said, status>>
        /\ UNCHANGED inputs
Compiling == /\ pc = "compile"
             /\ IF prog.st = "err" THEN Fail("diag") ELSE pc' = "write" /\ UNCHANGED <<buf, dev, said, status>>
Written == buf + dev
(* The buffer goes out whole or not at all. *)
Drain(after) == IF dev + buf <= room THEN dev' = dev + buf /\ buf' = 0 /\ pc' = after /\ UNCHANGED <<said, status>>
                ELSE Fail("io")
Write == /\ pc = "write" /\ Written < prog.len
         /\ IF buf < Buffer THEN buf' = buf + 1 /\ UNCHANGED <<pc, dev, said, status>>
            ELSE Drain("write")
Flush == pc = "write" /\ Written = prog.len /\ Drain("exit")
Exit == /\ pc \in {"exit", "failed"}
        /\ status' = (IF pc = "exit" THEN 0 ELSE 1) /\ pc' = "done" /\ UNCHANGED <<buf, dev, said>>
Act == (Compiling \/ Write \/ Flush \/ Exit) /\ UNCHANGED inputs
Next == (Send \/ Receive \/ Read \/ Act) /\ UNCHANGED <<text, len, prog, room>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Fault == IF text = "bytes" THEN "utf8" ELSE IF prog.st = "ok" /\ room < prog.len THEN "full" ELSE "none"
AllOfIt == Done /\ status = 0 => prog.st = "ok" /\ dev = prog.len /\ said = "none"
SaysWhy == Done /\ status = 1 => said # "none"
Permitted == Done => LET e == Deliver(prog, Fault) IN status = e.st /\ said = e.err
AllRead == pc \notin {"read"} => seen = len
NothingOfABadProgram == prog.st = "err" => dev = 0 /\ buf = 0
Terminates == <>Done
=============================================================================
