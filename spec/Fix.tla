-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic on TLC's 32-bit integers: the integer x stands for *)
(* the real number x / 10^6.  |values| stay below 2000; results are within a *)
(* few units of the last place.                                              *)
EXTENDS Integers, Sequences, TLC

One == 1000000
Half == 500000
FPi == 3141593
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Near(x, y, tol) == Abs(x - y) <= tol

\* product
MulA(a, b) == LET ah == a \div 1000  al == a % 1000  bh == b \div 1000  bl == b % 1000
              IN ah * bh + ((ah * bl + al * bh) \div 1000) + ((al * bl + 500000) \div 1000000)
FMul(x, y) == IF (x < 0) = (y < 0) THEN MulA(Abs(x), Abs(y)) ELSE -MulA(Abs(x), Abs(y))
FSq(x) == FMul(x, x)

\* quotient, digit by digit (|y| < 200)
RECURSIVE DivD(_, _, _, _)
DivD(r, b, q, k) == IF k = 0 THEN (IF 2 * r >= b THEN q + 1 ELSE q)
                    ELSE DivD((r * 10) % b, b, 10 * q + (r * 10) \div b, k - 1)
DivA(a, b) == DivD(a % b, b, a \div b, 6)
FDiv(x, y) == IF (x < 0) = (y < 0) THEN DivA(Abs(x), Abs(y)) ELSE -DivA(Abs(x), Abs(y))
\* the rational a/b (|b| small)
FRat(a, b) == LET q == DivD(Abs(a) % Abs(b), Abs(b), Abs(a) \div Abs(b), 6) IN IF (a < 0) = (b < 0) THEN q ELSE -q

\* square root by Newton's iteration
RECURSIVE SqrtN(_, _, _)
SqrtN(x, y, k) == IF k = 0 \/ y = 0 THEN y ELSE LET z == (y + DivA(x, y)) \div 2 IN IF Abs(z - y) <= 1 THEN z ELSE SqrtN(x, z, k - 1)
FSqrt100(x) == SqrtN(x \div 100, x \div 100 + One, 40)
FSqrt(x) == IF x <= 0 THEN 0 ELSE IF x < 100 * One THEN SqrtN(x, x + One, 40) ELSE 10 * FSqrt100(x)

\* exp(-t), t >= 0
ExpTab == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1, 0>>
RECURSIVE ExpT(_, _, _, _)
ExpT(z, term, k, acc) == IF term = 0 \/ k > 14 THEN acc ELSE LET u == -(FMul(term, z) \div k) IN ExpT(z, u, k + 1, acc + u)
FExpNeg(t) == IF t >= 15 * One THEN 0 ELSE FMul(ExpTab[t \div One + 1], ExpT(t % One, One, 1, One))

\* cos(k pi/12), sin(k pi/12)
CosTab == <<1000000, 965926, 866025, 707107, 500000, 258819, 0, -258819, -500000, -707107, -866025, -965926,
            -1000000, -965926, -866025, -707107, -500000, -258819, 0, 258819, 500000, 707107, 866025, 965926>>
CosK(k) == CosTab[(k % 24) + 1]
SinK(k) == CosTab[((k - 6) % 24) + 1]

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN One ELSE FMul(x, FPow(x, n - 1))
RECURSIVE SumF(_, _, _)
SumF(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumF(F, lo + 1, hi)
=============================================================================
