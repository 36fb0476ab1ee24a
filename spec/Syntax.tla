------------------------------- MODULE Syntax -------------------------------
(* Stage 1: from tokens to a surface program, and from there to a core term *)
(* with every identifier resolved.                                          *)
(*                                                                          *)
(* A token is [t |-> kind, ...]: kind is the punctuation itself, "id" (with *)
(* c: code points, s: the same as a string, raw) or "str" (with c), or      *)
(* "bad" for anything the language has no use for.                          *)
(*                                                                          *)
(* Grammar:                                                                 *)
(*   stmt  = let ANYID ID* = expr ; stmt  |  match expr ;                   *)
(*   expr  = / ID+ / alt  |  alt                                            *)
(*   alt   = lab ("|" lab)*         lab  = cat (":" ANYID)?                 *)
(*   cat   = call ("." call)*       call = term+                            *)
(*   term  = _ | STR | ! term | ( expr ) | ANYID                            *)
(* ID excludes Rust keywords and _, ANYID does not.                         *)
EXTENDS Core

Keywords ==
  {"_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue",
   "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for",
   "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut",
   "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct",
   "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use",
   "virtual", "where", "while", "yield"}

No == [ok |-> FALSE]
Yes(p, x) == [ok |-> TRUE, p |-> p, x |-> x]

Is(w, p, kind) == p <= Len(w) /\ w[p].t = kind
AnyId(w, p) == Is(w, p, "id")
Word(w, p, s) == AnyId(w, p) /\ ~w[p].raw /\ w[p].s = s
Id(w, p) == AnyId(w, p) /\ (w[p].raw \/ w[p].s \notin Keywords)
StartsTerm(w, p) == AnyId(w, p) \/ Is(w, p, "str") \/ Is(w, p, "!") \/ Is(w, p, "(")

---------------------------------------------------------------------------
(* Reading.  ReadX(w, p): read an X of w starting at token p.               *)
RECURSIVE ReadTerm(_, _), ReadCall(_, _, _), ReadCat(_, _, _, _), ReadLab(_, _),
          ReadAlt(_, _, _, _), ReadExpr(_, _), ReadIds(_, _), ReadStmt(_, _)
ReadTerm(w, p) ==
  IF Word(w, p, "_") THEN Yes(p + 1, [k |-> "eps", sp |-> <<p, p>>])
  ELSE IF AnyId(w, p) THEN Yes(p + 1, [k |-> "id", c |-> w[p].c, sp |-> <<p, p>>])
  ELSE IF Is(w, p, "str") THEN Yes(p + 1, [k |-> "str", s |-> w[p].c, sp |-> <<p, p>>])
  ELSE IF Is(w, p, "!") THEN
    LET r == ReadTerm(w, p + 1)
    IN IF r.ok THEN Yes(r.p, [k |-> "bang", e |-> r.x, sp |-> <<p, r.p - 1>>]) ELSE No
  ELSE IF Is(w, p, "(") THEN
    LET r == ReadExpr(w, p + 1)
    IN IF r.ok /\ Is(w, r.p, ")")
       THEN Yes(r.p + 1, [k |-> "paren", e |-> r.x, sp |-> <<p, r.p>>]) ELSE No
  ELSE No
(* One or more terms. *)
ReadCall(w, p, acc) ==
  LET r == ReadTerm(w, p)
  IN IF ~r.ok THEN No
     ELSE LET es == Append(acc, r.x)
          IN IF StartsTerm(w, r.p) THEN ReadCall(w, r.p, es)
             ELSE Yes(r.p, [k |-> "call", es |-> es, sp |-> <<es[1].sp[1], r.p - 1>>])
ReadCat(w, p, acc, ps) ==
  LET r == ReadCall(w, p, <<>>)
  IN IF ~r.ok THEN No
     ELSE LET es == Append(acc, r.x)
          IN IF Is(w, r.p, ".") THEN ReadCat(w, r.p + 1, es, Append(ps, <<r.p, r.p>>))
             ELSE Yes(r.p, [k |-> "cat", es |-> es, ps |-> ps, sp |-> <<es[1].sp[1], r.p - 1>>])
ReadLab(w, p) ==
  LET r == ReadCat(w, p, <<>>, <<>>)
  IN IF ~r.ok THEN No
     ELSE IF Is(w, r.p, ":")
          THEN IF AnyId(w, r.p + 1)
               THEN Yes(r.p + 2, [k |-> "lab", e |-> r.x, l |-> [c |-> w[r.p + 1].c, k |-> LABEL_NAME],
                                  sp |-> <<r.x.sp[1], r.p + 1>>])
               ELSE No
          ELSE Yes(r.p, [k |-> "lab", e |-> r.x, l |-> NoName, sp |-> r.x.sp])
ReadAlt(w, p, acc, ps) ==
  LET r == ReadLab(w, p)
  IN IF ~r.ok THEN No
     ELSE LET es == Append(acc, r.x)
          IN IF Is(w, r.p, "|") THEN ReadAlt(w, r.p + 1, es, Append(ps, <<r.p, r.p>>))
             ELSE Yes(r.p, [k |-> "alt", es |-> es, ps |-> ps, sp |-> <<es[1].sp[1], r.p - 1>>])
ReadIds(w, p) ==
  IF Id(w, p) THEN LET r == ReadIds(w, p + 1) IN Yes(r.p, <<w[p].c>> \o r.x)
  ELSE Yes(p, <<>>)
ReadExpr(w, p) ==
  IF Is(w, p, "/")
  THEN LET a == ReadIds(w, p + 1)
       IN IF a.x # <<>> /\ Is(w, a.p, "/")
          THEN LET r == ReadAlt(w, a.p + 1, <<>>, <<>>)
               IN IF r.ok THEN Yes(r.p, [k |-> "lam", ps |-> a.x, e |-> r.x, sp |-> <<p, r.p - 1>>])
                  ELSE No
          ELSE No
  ELSE ReadAlt(w, p, <<>>, <<>>)
ReadStmt(w, p) ==
  IF Word(w, p, "match")
  THEN LET r == ReadExpr(w, p + 1)
       IN IF r.ok /\ Is(w, r.p, ";")
          THEN Yes(r.p + 1, [k |-> "goal", e |-> r.x, sp |-> <<p, r.p>>]) ELSE No
  ELSE IF Word(w, p, "let") /\ AnyId(w, p + 1)
  THEN LET a == ReadIds(w, p + 2)
       IN IF ~Is(w, a.p, "=") THEN No
          ELSE LET r == ReadExpr(w, a.p + 1)
               IN IF ~(r.ok /\ Is(w, r.p, ";")) THEN No
                  ELSE LET m == ReadStmt(w, r.p + 1)
                       IN IF m.ok
                          THEN Yes(m.p, [k |-> "let", x |-> w[p + 1].c, ps |-> a.x, e |-> r.x,
                                         m |-> m.x, sp |-> <<p, m.p - 1>>])
                          ELSE No
  ELSE No
(* A program is one statement and nothing else. *)
Read(w) == LET r == ReadStmt(w, 1) IN IF r.ok /\ r.p = Len(w) + 1 THEN r ELSE No

---------------------------------------------------------------------------
(* Resolution.  ctx: the texts of the names in scope, innermost last.       *)
(* Result [st |-> "ok", t] or [st |-> "undeclared", c, sp].                 *)
Resolved(t) == [st |-> "ok", t |-> t]
Undeclared(c, sp) == [st |-> "undeclared", c |-> c, sp |-> sp]

(* Distance to the innermost binding of c, or -1. *)
RECURSIVE Lookup(_, _, _)
Lookup(ctx, c, d) ==
  IF d >= Len(ctx) THEN -1
  ELSE IF ctx[Len(ctx) - d] = c THEN d ELSE Lookup(ctx, c, d + 1)

Params(ps) == [j \in 1..Len(ps) |-> [c |-> ps[j], k |-> VARIABLE_NAME]]
AstName == [c |-> <<65, 115, 116>>, k |-> VARIABLE_NAME]

RECURSIVE Resolve(_, _), ResolveSeq(_, _, _, _)
Resolve(x, ctx) ==
  CASE x.k = "eps" -> Resolved([k |-> "eps", n |-> NoName, sp |-> x.sp])
    [] x.k = "id" ->
         LET i == Lookup(ctx, x.c, 0)
         IN IF i < 0 THEN Undeclared(x.c, x.sp)
            ELSE Resolved([k |-> "var", n |-> [c |-> x.c, k |-> VARIABLE_NAME], sp |-> x.sp, i |-> i])
    [] x.k = "str" -> Resolved([k |-> "lit", n |-> NoName, sp |-> x.sp, s |-> x.s])
    [] x.k = "bang" ->
         LET r == Resolve(x.e, ctx)
         IN IF r.st # "ok" THEN r
            ELSE Resolved([k |-> "fix", n |-> NoName, sp |-> x.sp, e |-> r.t])
    [] x.k = "paren" -> Resolve(x.e, ctx)
    [] x.k = "call" ->
         LET r == ResolveSeq(x.es, 1, ctx, <<>>)
         IN IF r.st # "ok" THEN r
            ELSE IF Len(r.ts) = 1 THEN Resolved(r.ts[1])
            ELSE Resolved([k |-> "call", n |-> NoName, sp |-> x.sp, f |-> r.ts[1], as |-> Tail(r.ts)])
    [] x.k \in {"cat", "alt"} ->
         LET r == ResolveSeq(x.es, 1, ctx, <<>>)
         IN IF r.st # "ok" THEN r
            ELSE IF Len(r.ts) = 1 THEN Resolved(r.ts[1])
            ELSE Resolved([k |-> x.k, n |-> NoName, sp |-> x.sp, es |-> r.ts, ps |-> x.ps])
    [] x.k = "lab" ->
         LET r == Resolve(x.e, ctx)
         IN IF r.st # "ok" THEN r
            ELSE Resolved([r.t EXCEPT !.n = Merge(x.l, r.t.n), !.sp = x.sp])
    [] x.k = "lam" ->
         LET r == Resolve(x.e, ctx \o x.ps)
         IN IF r.st # "ok" THEN r
            ELSE Resolved([k |-> "lam", n |-> NoName, sp |-> x.sp, ps |-> Params(x.ps), e |-> r.t])
    [] x.k = "goal" ->
         LET r == Resolve(x.e, ctx)
         IN IF r.st # "ok" THEN r
            ELSE Resolved([r.t EXCEPT !.n = Merge(r.t.n, AstName)])
    [] x.k = "let" ->
         LET name == [c |-> x.x, k |-> LET_NAME]
             b == Resolve(x.e, ctx \o x.ps)
         IN IF b.st # "ok" THEN b
            ELSE LET bound == IF x.ps = <<>> THEN [b.t EXCEPT !.n = name]
                              ELSE [k |-> "lam", n |-> name, sp |-> x.sp, ps |-> Params(x.ps), e |-> b.t]
                     m == Resolve(x.m, Append(ctx, x.x))
                 IN IF m.st # "ok" THEN m
                    ELSE Resolved([k |-> "let", n |-> NoName, sp |-> x.sp, x |-> name,
                                   b |-> bound, e |-> m.t])
ResolveSeq(es, j, ctx, acc) ==
  IF j > Len(es) THEN [st |-> "ok", ts |-> acc]
  ELSE LET r == Resolve(es[j], ctx)
       IN IF r.st = "ok" THEN ResolveSeq(es, j + 1, ctx, Append(acc, r.t)) ELSE r

(* The whole front end. *)
FrontEnd(w) ==
  LET r == Read(w) IN IF r.ok THEN Resolve(r.x, <<>>) ELSE [st |-> "syntax"]
=============================================================================
