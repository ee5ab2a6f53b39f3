------------------------------- MODULE OneDim -------------------------------
(* One-dimensional potentials (C19), the dot and the oscillator on a grid    *)
(* (C17) and the sinc-DVR basis (C18), in the fixed-point numbers of Fix.    *)
EXTENDS Fix

Q(r) == FRat(r[1], r[2])                   \* parameters are rationals <<num, den>>
Pow(x, n) == FPow(x, n)

-----------------------------------------------------------------------------
(* C19: V and V' at x; p is the sequence of parameters in the documented order *)
\* 1/y for large y is taken in two steps to keep digits
ExpG(x, c, sd) == LET z == FDiv(x - c, sd) IN IF Abs(z) > 6 * One THEN 0 ELSE FExpNeg(FSq(z) \div 2)
Soft(x, c) == FSqrt(FSq(x) + c)
V(kind, p, x) ==
  CASE kind = "ho" -> FMul(FSq(p[1]), FSq(x)) \div 2                                          \* omega
    [] kind = "dw" -> FMul(FSq(p[1]), FSq(x) + FSq(p[2]) \div 4 - FMul(p[2], Abs(x))) \div 2      \* omega, l
    [] kind = "smooth" -> FDiv(FSq(FSq(x) - FSq(p[1]) \div 4), FSq(p[1])) \div 2               \* a
    [] kind = "sym" -> FMul(p[1], Pow(x, 6)) + FMul(p[2], Pow(x, 4)) + FMul(p[3], FSq(x))      \* a, b, c
    [] kind = "asym" -> FMul(p[1], Pow(x, 4)) + FMul(p[2], Pow(x, 3)) + FMul(p[3], FSq(x))     \* a, b, c
    [] kind \in {"gauss", "wall"} -> -FMul(p[1], ExpG(x, p[2], p[3]))                          \* weight, center, deviation (, wall)
    [] kind = "atom" -> -FDiv(p[1], Soft(x, p[2]))                                             \* Za, c
\* beyond the wall 10^5 is added
Walled(kind, p, x) == kind = "wall" /\ Abs(x) > p[4]
HasD(kind) == kind # "wall"
DV(kind, p, x) ==
  CASE kind = "ho" -> FMul(FSq(p[1]), x)
    [] kind = "dw" -> FMul(FSq(p[1]), x) - (Sgn(x) * FMul(FSq(p[1]), p[2])) \div 2
    [] kind = "smooth" -> FDiv(2 * FMul(x, FSq(x) - FSq(p[1]) \div 4), FSq(p[1]))
    [] kind = "sym" -> 6 * FMul(p[1], Pow(x, 5)) + 4 * FMul(p[2], Pow(x, 3)) + 2 * FMul(p[3], x)
    [] kind = "asym" -> 4 * FMul(p[1], Pow(x, 3)) + 3 * FMul(p[2], FSq(x)) + 2 * FMul(p[3], x)
    [] kind = "gauss" -> FMul(FMul(p[1], FDiv(FDiv(x - p[2], p[3]), p[3])), ExpG(x, p[2], p[3]))
    [] kind = "atom" -> FDiv(FDiv(FMul(p[1], FDiv(x, Soft(x, p[2]))), Soft(x, p[2])), Soft(x, p[2]))

-----------------------------------------------------------------------------
(* Grids and interaction *)
GridX(R, n, i) == -R + ((2 * (i - 1) * (R \div (n - 1))) + (2 * (i - 1) * (R % (n - 1))) \div (n - 1))
Shield(x, y, alpha, a) == FDiv(alpha, FSqrt(FSq(x - y) + FSq(a)))
Dip(x, beta) == x + FMul(beta, FSq(x))

-----------------------------------------------------------------------------
(* C17: number of eigenvalues of the discretised Hamiltonian below E, by the *)
(* sign changes of the (rescaled) Sturm sequence                             *)
(*   q_i = (2 + 2 dx^2 (V_i - E)) q_(i-1) - q_(i-2)                          *)
RECURSIVE Scale(_, _)
Scale(a, b) == IF Abs(a) > 16 * One \/ Abs(b) > 16 * One THEN Scale(a \div 2, b \div 2)
               ELSE IF Abs(a) < One /\ Abs(b) < One /\ (a # 0 \/ b # 0) THEN Scale(2 * a, 2 * b) ELSE <<a, b>>
RECURSIVE Sturm(_, _, _, _, _, _, _)
Sturm(F(_), dx2, E, i, n, ab, cnt) ==
  IF i > n THEN cnt ELSE
  LET A == 2 * One + 2 * FMul(dx2, F(i) - E)
      s == Scale(ab[1], ab[2])
      q == FMul(A, s[1]) - s[2]
      neg == (q < 0 /\ s[1] >= 0) \/ (q > 0 /\ s[1] < 0)
  IN Sturm(F, dx2, E, i + 1, n, <<q, s[1]>>, IF neg THEN cnt + 1 ELSE cnt)
\* F(i) is the potential at interior point i of 1..n
Below(F(_), dx2, E, n) == Sturm(F, dx2, E, 1, n, <<One, 0>>, 0)

\* trapezoidal weights on n points
W(i, n) == IF i = 1 \/ i = n THEN Half ELSE One

-----------------------------------------------------------------------------
(* Hermite functions of frequency omega *)
RECURSIVE Herm(_, _, _, _, _)
\* normalised recurrence: psi_(n+1) = sqrt(2/(n+1)) z psi_n - sqrt(n/(n+1)) psi_(n-1)
Herm(n, k, z, a, b) == IF k = n THEN a
   ELSE Herm(n, k + 1, z, FMul(FSqrt(FRat(2, k + 1)), FMul(z, a)) - FMul(FSqrt(FRat(k, k + 1)), b), a)
Hermite(n, omega, x) == LET z == FMul(FSqrt(omega), x)
                            g == FMul(FSqrt(FSqrt(FDiv(omega, FPi))), FExpNeg(FSq(z) \div 2))
                        IN Herm(n, 0, z, g, 0)

-----------------------------------------------------------------------------
(* C18: sinc-DVR kinetic energy in units 1/dx^2: T[p,q] *)
Kin(p, q) == IF p = q THEN 1644934 ELSE FRat(IF (p - q) % 2 = 0 THEN 1 ELSE -1, (p - q) * (p - q))
=============================================================================
