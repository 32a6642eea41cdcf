--------------------------------- MODULE Fx ---------------------------------
(* Fixed-point (I80F48, as raw bits) and tolerance helpers. *)
EXTENDS BigInt
One == "281474976710656"
FxInt(n) == Shl(n, 48)
FxFloor(a) == Shr(a, 48)                       \* integer
FxCeil(a) == NegB(Shr(NegB(a), 48))            \* integer
FxTrunc(a) == TDiv(a, One)                     \* integer, towards zero
FxMulI(a, n) == Mul(a, n)                      \* fixed times integer
IsNeg(a) == Lt(a, 0)
IsPos(a) == Gt(a, 0)
IsZero(a) == Eq(a, 0)
Clamp(x, lo, hi) == Max(lo, Min(x, hi))
\* |a - b| <= tol
Within(a, b, tol) == Le(Abs(Sub(a, b)), tol)
\* a and b agree to about ppb parts per billion plus an absolute slack
Near(a, b, ppb, slack) == Within(a, b, Add(slack, TDiv(Mul(Max(Abs(a), Abs(b)), ppb), 1000000000)))
I64Max == "9223372036854775807"
U64Max == "18446744073709551615"
=============================================================================
