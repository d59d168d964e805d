-------------------------------- MODULE Num --------------------------------
(* Scalars. A history runs over one element type; its values are integers,  *)
(* or Gaussian integers <<re, im>> when CPLX. The drivers multiply every    *)
(* value by a common power of two before it reaches the code and divide it  *)
(* out of the results, so one specified history stands for all exponents.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT CPLX

NZero == IF CPLX THEN <<0, 0>> ELSE 0
NOne  == IF CPLX THEN <<1, 0>> ELSE 1
NAdd(a, b) == IF CPLX THEN <<a[1] + b[1], a[2] + b[2]>> ELSE a + b
NSub(a, b) == IF CPLX THEN <<a[1] - b[1], a[2] - b[2]>> ELSE a - b
NNeg(a)    == IF CPLX THEN <<-a[1], -a[2]>> ELSE -a
NMul(a, b) == IF CPLX THEN <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>> ELSE a * b
NInt(k, a) == IF CPLX THEN <<k * a[1], k * a[2]>> ELSE k * a         \* integer multiple

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
\* small enough to take part in 32 bit arithmetic (the drivers log NaN, infinity etc. as larger numbers)
Fin(x) == Abs(x) <= 32768
NSmall(a) == IF CPLX THEN Abs(a[1]) <= 8192 /\ Abs(a[2]) <= 8192 ELSE Abs(a) <= 8192
NFin(a) == IF CPLX THEN Fin(a[1]) /\ Fin(a[2]) ELSE Fin(a)
NAbs(a) == IF CPLX THEN Abs(a[1]) + Abs(a[2]) ELSE Abs(a)

\* sum of f(i) for i in lo..hi
RECURSIVE NSumF(_, _, _)
NSumF(f(_), lo, hi) == IF lo > hi THEN NZero
                       ELSE IF lo = hi THEN f(lo)
                       ELSE LET mid == (lo + hi) \div 2 IN NAdd(NSumF(f, lo, mid), NSumF(f, mid + 1, hi))
RECURSIVE SumF(_, _, _)
SumF(f(_), lo, hi) == IF lo > hi THEN 0
                      ELSE IF lo = hi THEN f(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN SumF(f, lo, mid) + SumF(f, mid + 1, hi)
RECURSIVE MaxF(_, _, _)
MaxF(f(_), lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN f(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN MaxOf(MaxF(f, lo, mid), MaxF(f, mid + 1, hi))
NSumSeq(s) == NSumF(LAMBDA i : s[i], 1, Len(s))

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
IsPow2(a) == \E k \in 0..30 : Abs(a) = Pow2(k)

\* floor of the square root of s (0 <= s < 2^31)
ISqrt(s) == LET RECURSIVE Bis(_, _)
                Bis(lo, hi) == IF hi - lo <= 1 THEN lo           \* lo*lo <= s < hi*hi
                               ELSE LET m == (lo + hi) \div 2 IN IF m * m <= s THEN Bis(m, hi) ELSE Bis(lo, m)
            IN  IF s = 0 THEN 0 ELSE Bis(0, MinOf(46341, s + 1))
=============================================================================
