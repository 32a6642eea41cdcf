----------------------------- MODULE CheckedMath -----------------------------
(* C24.  The language of expressions the checked-arithmetic macros accept, its
   meaning (the Rust meaning of the source text, with failure instead of
   overflow), and its concrete syntax.  CheckedMathGen enumerates expressions
   from this module, they are compiled through the real macros, and
   CheckedMathTrace checks every observed result against Eval. *)
EXTENDS BigInt, Sequences, FiniteSets, TLC

Fail == [ok |-> FALSE]
Val(n) == [ok |-> TRUE, n |-> n]

Ops == {"+", "-", "*", "/", "%", "<<", ">>"}
ArithOps == {"+", "-", "*", "/", "%"}

IntTypes == {"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"}
Signed(ty) == ty \in {"i8", "i16", "i32", "i64", "i128"}
BitsOf == [ty \in IntTypes |-> CASE ty \in {"i8", "u8"} -> 8 [] ty \in {"i16", "u16"} -> 16
              [] ty \in {"i32", "u32"} -> 32 [] ty \in {"i64", "u64"} -> 64 [] OTHER -> 128]
Bits(ty) == BitsOf[ty]
LoOf == [ty \in IntTypes |-> IF Signed(ty) THEN NegB(Pow2(BitsOf[ty] - 1)) ELSE 0]
HiOf == [ty \in IntTypes |-> Sub(Pow2(IF Signed(ty) THEN BitsOf[ty] - 1 ELSE BitsOf[ty]), 1)]
Lo(ty) == LoOf[ty]
Hi(ty) == HiOf[ty]
Fits(n, ty) == Le(Lo(ty), n) /\ Le(n, Hi(ty))
Checked(n, ty) == IF Fits(n, ty) THEN Val(n) ELSE Fail
\* the value with the same low bits (language casts and bits shifted out)
Wrap(n, ty) == LET u == ModPow2(n, Bits(ty))
               IN IF Gt(u, Hi(ty)) THEN Sub(u, Pow2(Bits(ty))) ELSE u

BinOp(op, x, y, ty) ==
  CASE op = "+" -> Checked(Add(x, y), ty)
    [] op = "-" -> Checked(Sub(x, y), ty)
    [] op = "*" -> Checked(Mul(x, y), ty)
    [] op = "/" -> IF Eq(y, 0) THEN Fail ELSE Checked(TDiv(x, y), ty)
    \* MIN % -1 overflows although the remainder itself would be 0
    [] op = "%" -> IF Eq(y, 0) \/ ~Fits(TDiv(x, y), ty) THEN Fail ELSE Val(TMod(x, y))
    [] op = "<<" -> IF Ge(y, Bits(ty)) THEN Fail ELSE Val(Wrap(Shl(x, y), ty))
    [] op = ">>" -> IF Ge(y, Bits(ty)) THEN Fail ELSE Val(Shr(x, y))

\* (a saturated exponent is enough to decide overflow of any |x| >= 2)
PowOp(x, n, ty) ==
  IF Eq(x, 0) THEN Val(IF Eq(n, 0) THEN 1 ELSE 0)
  ELSE IF Eq(x, 1) THEN Val(1)
  ELSE IF Eq(x, -1) THEN Val(IF Eq(FMod(n, 2), 0) THEN 1 ELSE -1)
  ELSE IF Gt(n, 130) THEN Fail ELSE Checked(Pow(x, n), ty)

(* Expressions.  T is the type under test, "u32" the type of shift amounts and
   exponents, W the target of casts. *)
Var(v) == [k |-> "v", v |-> v]
Bin(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
NegE(e) == [k |-> "neg", e |-> e]
AbsE(e) == [k |-> "abs", e |-> e]
PowE(e, x) == [k |-> "pow", e |-> e, x |-> x]
CastE(e, ty) == [k |-> "cast", e |-> e, ty |-> ty]
IdM(e) == [k |-> "idm", e |-> e]          \* e.me(): an opaque zero-argument method
Lit(n) == [k |-> "lit", n |-> n]
ParE(e) == [k |-> "par", e |-> e]         \* redundant parentheses
Call(v) == [k |-> "call", v |-> v]        \* v_fn(): opaque call with the value of v
FieldE(v) == [k |-> "field", v |-> v]     \* s.v
GroupE(e) == [k |-> "group", e |-> e]     \* $x:expr fragment of a macro_rules macro

TyOf(v, T, W) == CASE v \in {"n", "m"} -> "u32" [] v = "w" -> W [] OTHER -> T

RECURSIVE Ty(_, _, _)
Ty(e, T, W) ==
  CASE e.k \in {"v", "call", "field"} -> TyOf(e.v, T, W)
    [] e.k = "bin" -> LET l == Ty(e.l, T, W) IN IF l = "lit" THEN Ty(e.r, T, W) ELSE l
    [] e.k = "lit" -> "lit"
    [] e.k = "cast" -> e.ty
    [] OTHER -> Ty(e.e, T, W)

(* Meaning: Fail as soon as any operation of the expression fails. *)
RECURSIVE EvalT(_, _, _, _, _)
EvalT(e, env, ty, T, W) ==
  CASE e.k \in {"v", "call", "field"} -> Val(env[e.v])
    [] e.k = "lit" -> Val(e.n)
    [] e.k = "bin" ->
         LET l == EvalT(e.l, env, ty, T, W)
             r == EvalT(e.r, env, IF e.op \in {"<<", ">>"} THEN "u32" ELSE ty, T, W)
         IN IF l.ok /\ r.ok THEN BinOp(e.op, l.n, r.n, ty) ELSE Fail
    [] e.k = "neg" -> LET x == EvalT(e.e, env, ty, T, W)
                      IN IF x.ok THEN Checked(NegB(x.n), ty) ELSE Fail
    [] e.k = "abs" -> LET x == EvalT(e.e, env, ty, T, W)
                      IN IF x.ok THEN Checked(Abs(x.n), ty) ELSE Fail
    [] e.k = "pow" -> LET x == EvalT(e.e, env, ty, T, W)
                          n == EvalT(e.x, env, "u32", T, W)
                      IN IF x.ok /\ n.ok THEN PowOp(x.n, n.n, ty) ELSE Fail
    [] e.k = "cast" -> LET x == EvalT(e.e, env, Ty(e.e, T, W), T, W)
                       IN IF x.ok THEN Val(Wrap(x.n, e.ty)) ELSE Fail
    [] OTHER -> EvalT(e.e, env, ty, T, W)          \* par, idm, group
Eval(e, env, T, W) == EvalT(e, env, Ty(e, T, W), T, W)

(* Concrete syntax, with only the parentheses Rust's precedence requires. *)
Prec(e) ==
  CASE e.k = "bin" -> (CASE e.op \in {"*", "/", "%"} -> 3 [] e.op \in {"+", "-"} -> 2 [] OTHER -> 1)
    [] e.k = "cast" -> 0
    [] e.k = "neg" -> 5
    [] OTHER -> 6
RECURSIVE Render(_, _)
Render(e, min) ==
  LET body ==
    CASE e.k = "v" -> e.v
      [] e.k = "lit" -> ToString(e.n)
      [] e.k = "call" -> e.v \o "_fn()"
      [] e.k = "field" -> "s." \o e.v
      [] e.k = "bin" -> Render(e.l, Prec(e)) \o " " \o e.op \o " " \o Render(e.r, Prec(e) + 1)
      [] e.k = "neg" -> "-" \o Render(e.e, 5)
      [] e.k = "abs" -> Render(e.e, 6) \o ".abs()"
      [] e.k = "pow" -> Render(e.e, 6) \o ".pow(" \o Render(e.x, 0) \o ")"
      [] e.k = "idm" -> Render(e.e, 6) \o ".me()"
      [] e.k = "par" -> "(" \o Render(e.e, 0) \o ")"
      [] e.k = "group" -> "GROUP{" \o Render(e.e, 0) \o "}"
      [] e.k = "cast" -> Render(e.e, 4) \o " as " \o e.ty
  IN IF Prec(e) < min THEN "(" \o body \o ")" ELSE body

RECURSIVE Vars(_)
Vars(e) ==
  CASE e.k \in {"v", "call", "field"} -> {e.v}
    [] e.k = "lit" -> {}
    [] e.k = "bin" -> Vars(e.l) \cup Vars(e.r)
    [] e.k = "pow" -> Vars(e.e) \cup Vars(e.x)
    [] OTHER -> Vars(e.e)

(* Operand values of each variable, in the order the driver enumerates them. *)
ShortDomain(T) == IF Signed(T) THEN <<Lo(T), -7, -1, 0, 3, Hi(T)>> ELSE <<0, 1, 5, 16, Hi(T)>>
Domain(v, T, W) ==
  CASE v = "n" -> <<0, 1, 3, Bits(T) - 1, Bits(T)>>
    [] v = "m" -> <<0, 2, "4294967295">>
    [] v = "w" -> <<Lo(W), 5, Hi(W)>>
    [] Signed(T) -> <<Lo(T), Add(Lo(T), 1), -7, -1, 0, 1, 3, 12, Sub(Hi(T), 1), Hi(T)>>
    [] OTHER -> <<0, 1, 2, 5, 16, Sub(Hi(T), 1), Hi(T)>>
=============================================================================
