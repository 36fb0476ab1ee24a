-------------------------------- MODULE Types -------------------------------
(* The typing rules (stage 3).  A type is [null, first, flast].             *)
(* Infer(t, ctx, ug): ctx is the sequence of types of the variables in      *)
(* scope, innermost last; ug is the number of those that are usable here    *)
(* (bound before the enclosing concatenation consumed input).               *)
(* Result: [st |-> "ok", tt |-> typed term]                                 *)
(*      or [st |-> "err", e |-> kind, sp |-> place at fault]                *)
(* A typed term is a term with field ty (and no lam around a fix body).     *)
EXTENDS Core

EmptyTy == [null |-> FALSE, first |-> {}, flast |-> {}]
EpsTy   == [null |-> TRUE, first |-> {}, flast |-> {}]
LitTy(s) == [null |-> Len(s) = 0,
             first |-> IF Len(s) = 0 THEN {} ELSE {s[1]},
             flast |-> {}]
CatTy(a, b) ==
  [null  |-> a.null /\ b.null,
   first |-> a.first \cup (IF a.null THEN b.first ELSE {}),
   flast |-> b.flast \cup (IF b.null THEN b.first \cup a.flast ELSE {})]
AltTy(a, b) ==
  [null  |-> a.null \/ b.null,
   first |-> a.first \cup b.first,
   flast |-> a.flast \cup b.flast]

TOk(tt)     == [st |-> "ok", tt |-> tt]
TErr(e, sp) == [st |-> "err", e |-> e, sp |-> sp]
(* What is said of a variable: its name, or else its index. *)
VErr(e, t) == [st |-> "err", e |-> e, sp |-> t.sp, nm |-> t.n.c, ix |-> t.i]

Leaf(t, ty) ==
  CASE t.k = "eps" -> [k |-> "eps", n |-> t.n, ty |-> ty]
    [] t.k = "lit" -> [k |-> "lit", n |-> t.n, ty |-> ty, s |-> t.s]
    [] t.k = "var" -> [k |-> "var", n |-> t.n, ty |-> ty, i |-> t.i]
Node(t, ty, es) == [k |-> t.k, n |-> t.n, ty |-> ty, es |-> es]

RECURSIVE Infer(_, _, _), InferCat(_, _, _, _, _, _), InferAlt(_, _, _, _, _, _),
          InferFix(_, _, _, _, _)
Infer(t, ctx, ug) ==
  CASE t.k = "eps" -> TOk(Leaf(t, EpsTy))
    [] t.k = "lit" -> TOk(Leaf(t, LitTy(t.s)))
    [] t.k = "var" ->
         IF t.i >= Len(ctx) THEN VErr("free", t)
         ELSE IF ug + t.i >= Len(ctx) THEN TOk(Leaf(t, ctx[Len(ctx) - t.i]))
         ELSE VErr("guarded", t)
    [] t.k = "cat" ->
         LET r == Infer(t.es[1], ctx, ug)
         IN IF r.st # "ok" THEN r
            ELSE IF r.tt.ty.null THEN TErr("cat_null", IF Len(t.ps) = 0 THEN NoSpan ELSE t.ps[1])
            ELSE InferCat(t, ctx, Len(ctx), 2, r.tt.ty, <<r.tt>>)
    [] t.k = "alt" ->
         LET r == Infer(t.es[1], ctx, ug)
         IN IF r.st # "ok" THEN r
            ELSE InferAlt(t, ctx, ug, 2, r.tt.ty, <<r.tt>>)
    [] t.k = "fix" ->
         IF t.e.k = "lam" /\ Len(t.e.ps) = 1
         THEN LET body == [t.e.e EXCEPT !.n = Merge3(t.e.n, t.e.e.n, t.n)]
              IN InferFix(t, body, ctx, ug, EmptyTy)
         ELSE TErr("fix", t.sp)
    [] t.k = "call" -> TErr("call", t.sp)
    [] t.k = "lam"  -> TErr("lam", t.sp)
    [] t.k = "let"  -> TErr("let", t.sp)
InferCat(t, ctx, ug, j, ty, acc) ==
  IF j > Len(t.es) THEN TOk(Node(t, ty, acc))
  ELSE LET r == Infer(t.es[j], ctx, ug)
       IN IF r.st # "ok" THEN r
          ELSE IF ty.flast \cap r.tt.ty.first # {} THEN TErr("cat_overlap", t.ps[j - 1])
          ELSE InferCat(t, ctx, ug, j + 1, CatTy(ty, r.tt.ty), Append(acc, r.tt))
InferAlt(t, ctx, ug, j, ty, acc) ==
  IF j > Len(t.es) THEN TOk(Node(t, ty, acc))
  ELSE LET r == Infer(t.es[j], ctx, ug)
       IN IF r.st # "ok" THEN r
          ELSE IF ty.null /\ r.tt.ty.null THEN TErr("alt_null", t.ps[j - 1])
          ELSE IF ty.first \cap r.tt.ty.first # {} THEN TErr("alt_overlap", t.ps[j - 1])
          ELSE InferAlt(t, ctx, ug, j + 1, AltTy(ty, r.tt.ty), Append(acc, r.tt))
(* Kleene iteration from the empty type. *)
InferFix(t, body, ctx, ug, last) ==
  LET r == Infer(body, Append(ctx, last), ug)
  IN IF r.st # "ok" THEN r
     ELSE IF r.tt.ty = last
          THEN TOk([k |-> "fix", n |-> t.n, ty |-> last, e |-> r.tt])
          ELSE InferFix(t, body, ctx, ug, r.tt.ty)

TypeOf(t) == Infer(t, <<>>, 0)
=============================================================================
