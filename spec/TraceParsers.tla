---------------------------- MODULE TraceParsers -----------------------------
(* Generated parsers, recorded: for each accepted grammar t,                *)
(*   code   whether code came out       again  the same code every time     *)
(*   built  whether it compiles         api    the types it offers          *)
(*   runs   what the parser did: [w |-> input, rs |-> <<[m, r], ...>>]      *)
(*   pieces single characters read as the types that convert to one:        *)
(*          [w |-> input, show |-> printed, ch |-> converted]               *)
(* Modes str boxstr iter boxiter read the whole input, take takebox takedyn *)
(* takestr a prefix of it.                                                  *)
EXTENDS TraceBase, Parse, Lang, Naming, Position

VARIABLES case, stage
vars == <<case, stage>>
Ev == Trace[case]

Whole == {"str", "boxstr", "iter", "boxiter"}
SeesRest == {"take", "takebox", "takedyn"}
Short(w) == Len(w) <= 10

---------------------------------------------------------------------------
(* C06: success, and how much is consumed.                                  *)
Want(tt, m, w) == IF m \in Whole THEN ParseAll(tt, w) ELSE TakeAll(tt, w)
Ran(r) == r.st \in {"ok", "err"}
RecognisesOne(tt, m, w, r) ==
  LET want == Want(tt, m, w)
  IN /\ Ran(r)
     /\ want.ok <=> r.st = "ok"
     /\ (want.ok /\ m \in SeesRest) => r.left = Len(w) - want.p
Denotes(t, m, w, r) == (m \in Whole /\ Short(w)) => (r.st = "ok" <=> Member(t, w))

---------------------------------------------------------------------------
(* C07: the tree.                                                           *)
(* The nodes of a tree in preorder. *)
RECURSIVE Preorder(_), PreorderSeq(_, _)
Preorder(x) == CASE x.t = "eps" -> <<0>>
                 [] x.t = "lit" -> <<1>>
                 [] x.t = "cat" -> <<2, Len(x.cs)>> \o PreorderSeq(x.cs, 1)
                 [] x.t = "alt" -> <<3, x.i>> \o Preorder(x.c)
PreorderSeq(cs, j) == IF j > Len(cs) THEN <<>> ELSE Preorder(cs[j]) \o PreorderSeq(cs, j + 1)
Consumed(m, w, r) == IF m = "takestr" THEN SubSeq(w, 1, IF Len(r.show) <= Len(w) THEN Len(r.show) ELSE 0)
                     ELSE SubSeq(w, 1, Len(w) - r.left)
Lossless(m, w, r) ==
  /\ r.show = Consumed(m, w, r)
  /\ "ch" \in DOMAIN r => r.show = <<r.ch>>
Converts == "pieces" \in DOMAIN Ev =>
  \A j \in 1..Len(Ev.pieces) : LET x == Ev.pieces[j] IN "ch" \in DOMAIN x /\ x.show = x.w /\ x.w = <<x.ch>>
(* One character and no more: these trees convert to it. *)
RECURSIVE OneChar(_)
OneChar(x) == CASE x.k = "lit" -> Len(x.s) = 1
                [] x.k = "alt" -> \A j \in 1..Len(x.es) : OneChar(x.es[j])
                [] OTHER -> FALSE
Mirrors(tt, m, w, r) == LET want == Want(tt, m, w) IN want.ok => Preorder(want.t) = r.t

---------------------------------------------------------------------------
(* C08: failures.                                                           *)
Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
Rendered(r) == Within(r.at, r.msg) /\ \A j \in 1..Len(r.q) : Within(r.q[j], r.msg)
PlaceText(r) == Digits(r.line) \o <<58>> \o Digits(r.col)
Faults(want, w, r) ==
  /\ want.e = r.e
  /\ PosOf(w, want.p) = [line |-> r.line, col |-> r.col]
  /\ want.e = "branch" => r.got = <<want.got>> /\ SetOf(r.exp) = want.exp
  /\ want.e = "string" => r.got = want.got /\ r.exp = want.exp
  /\ PlaceText(r) = r.at /\ Rendered(r)
FailsWell(tt, m, w, r) ==
  r.st # "ok" => LET want == Want(tt, m, w) IN ~want.ok => r.st = "err" /\ Faults(want, w, r)

---------------------------------------------------------------------------
(* The types against the grammar.  Nodes of the grammar are paths; a fixed  *)
(* point and its variables stand for its body.                              *)
RECURSIVE NodeAt(_, _, _)
NodeAt(tt, path, j) ==
  IF j > Len(path) THEN tt
  ELSE IF tt.k = "fix" THEN NodeAt(tt.e, path, j + 1)
  ELSE NodeAt(tt.es[path[j]], path, j + 1)
(* The path of the fixed point binding variable i at path. *)
RECURSIVE Binder(_, _, _, _)
Binder(tt, path, len, i) ==
  IF NodeAt(tt, SubSeq(path, 1, len), 1).k # "fix" THEN Binder(tt, path, len - 1, i)
  ELSE IF i = 0 THEN SubSeq(path, 1, len) ELSE Binder(tt, path, len - 1, i - 1)
RECURSIVE Body(_, _)
Body(tt, path) ==
  LET x == NodeAt(tt, path, 1)
  IN CASE x.k = "fix" -> Body(tt, Append(path, 1))
       [] x.k = "var" -> Body(tt, Append(Binder(tt, path, Len(path) - 1, x.i), 1))
       [] OTHER -> path
RECURSIVE Behind(_, _, _)
Behind(types, name, fuel) ==
  IF name \notin DOMAIN types \/ types[name].k # "alias" \/ fuel = 0 THEN name
  ELSE Behind(types, types[name].fs[1].ty, fuel - 1)
Kind(types, name) ==
  IF name \in DOMAIN types THEN types[name].k ELSE IF name = "Epsilon" THEN "eps" ELSE "missing"

(* All pairs of a type and a grammar node reached together from the top.    *)
Children(types, tt, pair) ==
  LET ty == pair[1]  path == pair[2]  x == NodeAt(tt, path, 1)
  IN IF x.k \notin {"cat", "alt"} \/ ty \notin DOMAIN types THEN {}
     ELSE LET fs == types[ty].fs
              m == IF Len(fs) < Len(x.es) THEN Len(fs) ELSE Len(x.es)
          IN {<<Behind(types, fs[j].ty, 50), Body(tt, Append(path, j))>> : j \in 1..m}
RECURSIVE Reach(_, _, _, _)
Reach(types, tt, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET next == UNION {Children(types, tt, p) : p \in todo}
       IN Reach(types, tt, next \ (seen \cup todo), seen \cup todo)
Pairs(types, tt) == LET p == {<<Behind(types, "Ast", 50), Body(tt, <<>>)>>} IN Reach(types, tt, p, {})

Fits(types, tt, pair) ==
  LET k == Kind(types, pair[1])  x == NodeAt(tt, pair[2], 1)
  IN CASE x.k = "eps" -> k = "eps"
       [] x.k = "lit" -> k = "unit"
       [] x.k = "cat" -> k \in {"tuple", "struct"} /\ Len(types[pair[1]].fs) = Len(x.es)
       [] x.k = "alt" -> k = "enum" /\ Len(types[pair[1]].fs) = Len(x.es)
(* C07: what is one character converts to it. *)
Convertible(ev, tt) ==
  ev.code.st = "ok" =>
    \A p \in Pairs(ev.api.types, tt) :
      OneChar(NodeAt(tt, p[2], 1)) /\ p[1] \in DOMAIN ev.api.types => \E j \in 1..Len(ev.api.chars) : ev.api.chars[j] = p[1]
(* C10: types mirror the grammar, and a type stands for one literal text.   *)
OneText(tt, P) ==
  \A p, q \in P : p[1] = q[1] /\ NodeAt(tt, p[2], 1).k = "lit" /\ NodeAt(tt, q[2], 1).k = "lit"
                    => NodeAt(tt, p[2], 1).s = NodeAt(tt, q[2], 1).s
DistinctParts(types) ==
  \A t \in DOMAIN types : \A i, j \in 1..Len(types[t].fs) : i # j => types[t].fs[i].n # types[t].fs[j].n
Once(defs) == \A i, j \in 1..Len(defs) : defs[i] = defs[j] => i = j
(* Whatever name is asked for the root, it is one more name for the same type. *)
NamedRoot(ev) ==
  /\ Once(ev.api.defs)
  /\ ev.named.st = "ok" /\ ev.named.same /\ Once(ev.named.defs)
ValidCode(ev, tt) ==
  /\ ev.code.st = "ok" /\ ev.again /\ ev.built
  /\ NamedRoot(ev)
  /\ LET types == ev.api.types  P == Pairs(types, tt)
     IN (\A p \in P : Fits(types, tt, p)) /\ OneText(tt, P) /\ DistinctParts(types)

(* C11: names of parts and branches.                                        *)
NamedAs(types, tt, pair) ==
  LET x == NodeAt(tt, pair[2], 1)
      names == IF pair[1] \in DOMAIN types THEN [j \in 1..Len(types[pair[1]].fs) |-> types[pair[1]].fs[j].n] ELSE <<>>
  IN x.k \in {"cat", "alt"} /\ AsciiNames(x.es) /\ Len(names) = Len(x.es) =>
       names = IF x.k = "cat" THEN FieldNames(x.es) ELSE VariantNames(x.es)
(* What goes by a name or a number is what has that name or place in the    *)
(* grammar: the type behind it is of its kind, and no text but its own.     *)
WellNamed(ev, tt) ==
  ev.code.st = "ok" => LET types == ev.api.types  P == Pairs(types, tt)
                       IN (\A p \in P : NamedAs(types, tt, p) /\ Fits(types, tt, p)) /\ OneText(tt, P)
(* What to show when a name is wrong. *)
Expected(ev, tt) ==
  LET types == ev.api.types
  IN {[ty |-> p[1], names |-> LET x == NodeAt(tt, p[2], 1) IN IF x.k = "cat" THEN FieldNames(x.es) ELSE IF x.k = "alt" THEN VariantNames(x.es) ELSE <<>>] :
        p \in {q \in Pairs(types, tt) : ~NamedAs(types, tt, q) \/ ~Fits(types, tt, q)}}

---------------------------------------------------------------------------
Init == case \in 1..Len(Trace) /\ stage = "given"

OneRun(tt, m, w, r) ==
  CASE Facet = "C06" -> RecognisesOne(tt, m, w, r) /\ Denotes(Ev.t, m, w, r)
    [] Facet = "C07" -> r.st = "ok" => Lossless(m, w, r) /\ Mirrors(tt, m, w, r)
    [] Facet = "C08" -> FailsWell(tt, m, w, r)
(* A grammar the typing rules reject (that is C04) still denotes something. *)
UntypedRun(m, w, r) ==
  CASE Facet = "C06" -> Ran(r) /\ Denotes(Ev.t, m, w, r)
    [] Facet = "C07" -> r.st = "ok" => Lossless(m, w, r)
    [] Facet = "C08" -> Ran(r)
Bad(tt) ==
  LET ok == tt.st = "ok"
  IN UNION {LET run == Ev.runs[j]
            IN {[w |-> run.w, m |-> run.rs[i].m, r |-> run.rs[i].r,
                 want |-> IF ok THEN Want(tt.tt, run.rs[i].m, run.w) ELSE tt] :
                  i \in {i \in 1..Len(run.rs) :
                           ~IF ok THEN OneRun(tt.tt, run.rs[i].m, run.w, run.rs[i].r)
                            ELSE UntypedRun(run.rs[i].m, run.w, run.rs[i].r)}}
            : j \in 1..Len(Ev.runs)}
Reject(want) == Report(case, want) /\ stage' = "rejected"
Running ==
  /\ stage = "given" /\ Facet \in {"C06", "C07", "C08"}
  /\ LET tt == TypeOf(Ev.t)  bad == Bad(tt)
     IN IF bad # {} THEN Reject(CHOOSE b \in bad : TRUE)
        ELSE IF Facet = "C07" /\ ~Converts THEN Reject([st |-> "pieces", ps |-> Ev.pieces])
        ELSE IF Facet = "C07" /\ (IF tt.st = "ok" THEN ~Convertible(Ev, tt.tt) ELSE FALSE)
        THEN Reject([st |-> "conversions", chars |-> Ev.api.chars])
        ELSE stage' = "explained"
  /\ UNCHANGED case
Offering ==
  /\ stage = "given" /\ Facet \in {"C10", "C11"}
  /\ LET tt == TypeOf(Ev.t)
     IN IF tt.st # "ok" THEN stage' = "skipped"
        ELSE IF Facet = "C10"
        THEN IF ValidCode(Ev, tt.tt) THEN stage' = "explained" ELSE Reject([st |-> "code"])
        ELSE IF WellNamed(Ev, tt.tt) THEN stage' = "explained" ELSE Reject(Expected(Ev, tt.tt))
  /\ UNCHANGED case
Next == Running \/ Offering
Spec == Init /\ [][Next]_vars

AllRead == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
