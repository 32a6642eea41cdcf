------------------------------- MODULE BigInt -------------------------------
(* Unbounded integers for TLC.  TLC's own integers are 32 bit; the values of
   the implementation are up to 128 bits (fixed-point bits, token amounts).
   The definitions below are the ordinary integer operators, so every module
   that uses them is an ordinary integer specification (and small-constant
   model checking can run without the Java module override).  With the
   override in java/BigInt.java an integer is a TLC integer when it fits into
   32 bits and its decimal string otherwise; compare with Eq, never with =. *)
EXTENDS Integers

Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
NegB(a)    == 0 - a
\* floor division and the matching non-negative remainder (divisor # 0)
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (0 - a) \div (0 - b)
FMod(a, b) == a - b * FDiv(a, b)
\* division truncating towards zero, and remainder with the dividend's sign
TDiv(a, b) == LET q == (IF a < 0 THEN 0 - a ELSE a) \div (IF b < 0 THEN 0 - b ELSE b)
              IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q
TMod(a, b) == a - b * TDiv(a, b)
Lt(a, b) == a < b
Le(a, b) == a <= b
Gt(a, b) == a > b
Ge(a, b) == a >= b
Eq(a, b) == a = b
Ne(a, b) == a # b
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Shl(a, n) == a * Pow2(n)
Shr(a, n) == FDiv(a, Pow2(n))        \* arithmetic (floor) shift
\* a * b \div c, truncated
MulDiv(a, b, c) == TDiv(a * b, c)
\* low n bits of a as an unsigned number
ModPow2(a, n) == FMod(a, Pow2(n))
Len2(s) == CHOOSE n \in 0..10000 : DOMAIN s = 1..n
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Add(s[1], SumSeq([i \in 1..(Len2(s) - 1) |-> s[i + 1]]))
\* I80F48 fixed-point numbers as raw bits: the product is rounded down, the
\* quotient towards zero
FxMul(a, b) == FDiv(a * b, Pow2(48))
FxDiv(a, b) == TDiv(a * Pow2(48), b)
\* structural equality of values that contain numbers (which may differ in representation)
Same(a, b) == a = b
(* Rules of the trace specifications.  As written a rule is its condition; the
   override counts the lines each rule applied to (Hit) and reports every
   line that breaks a rule (Miss) instead of stopping at the first. *)
Hit(name) == TRUE
Miss(line, name) == FALSE
=============================================================================
