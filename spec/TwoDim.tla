------------------------------- MODULE TwoDim -------------------------------
(* The two-dimensional harmonic oscillator: orbitals, their order, and the   *)
(* exact Coulomb, position and |position| elements, written from the         *)
(* circular-quanta algebra (not from the series used by the code).           *)
(*                                                                           *)
(* An orbital is <<n, m>> with circular quanta np = n + max(m,0),            *)
(* nm = n + max(-m,0); |n,m> = (-1)^n (a+)^np (a-)^nm |0> / sqrt(np! nm!).    *)
EXTENDS Fix, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
NP(o) == o[1] + Max(o[2], 0)
NM(o) == o[1] + Max(-o[2], 0)
Shell(o) == 2 * o[1] + Abs(o[2]) + 1          \* energy in units of omega
Quanta(o) == NP(o) + NM(o)

-----------------------------------------------------------------------------
(* C12: order of the orbitals *)
ShellStart(N) == (N * (N - 1)) \div 2
MaxShell == 46340                             \* the largest whose size is within TLC's integers
RECURSIVE ShellOf(_, _, _)
ShellOf(p, lo, hi) == IF hi = lo + 1 THEN lo        \* ShellStart(lo) <= p < ShellStart(hi)
                      ELSE LET mid == (lo + hi) \div 2 IN IF ShellStart(mid) > p THEN ShellOf(p, lo, mid) ELSE ShellOf(p, mid, hi)
Orb(p) == LET N == ShellOf(p, 1, MaxShell)  j == p - ShellStart(N)  m == 2 * j - (N - 1) IN <<(N - 1 - Abs(m)) \div 2, m>>
Index(o) == ShellStart(Shell(o)) + (o[2] + Shell(o) - 1) \div 2

-----------------------------------------------------------------------------
(* Modular integers: exact values are compared modulo two primes.            *)
Primes == <<46337, 46327>>
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)               \* n <= 12
RECURSIVE FactM(_, _)
FactM(n, P) == IF n <= 1 THEN 1 ELSE (n * FactM(n - 1, P)) % P
RECURSIVE Dfact(_, _)
Dfact(s, P) == IF s <= 0 THEN 1 ELSE ((2 * s - 1) * Dfact(s - 1, P)) % P     \* (2s-1)!!
RECURSIVE Pow2(_, _)
Pow2(k, P) == IF k <= 0 THEN 1 ELSE (2 * Pow2(k - 1, P)) % P
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (n * Binom(n - 1, k - 1)) \div k
BinT == TLCEval([n \in 0..28 |-> [k \in 0..28 |-> Binom(n, k)]])
Sg(k) == IF k % 2 = 0 THEN 1 ELSE -1
M(x, P) == x % P

RECURSIVE SumM(_, _, _, _)
SumM(F(_), lo, hi, P) == IF lo > hi THEN 0 ELSE (F(lo) + SumM(F, lo + 1, hi, P)) % P

\* n! L_n^k(t) = sum_j Lag(n,k,j) t^j
FacT == TLCEval([n \in 0..12 |-> Fact(n)])
Lag(n, k, j) == Sg(j) * BinT[n + k][n - j] * (FacT[n] \div FacT[j])
\* the same modulo a prime, for orbitals whose coefficients are large
RECURSIVE Fall(_, _, _)
Fall(n, j, P) == IF n <= j THEN 1 ELSE (n * Fall(n - 1, j, P)) % P          \* n! / j!
LagM(n, k, j, P) == (((Sg(j) * BinT[n + k][n - j]) % P) * Fall(n, j, P)) % P

\* coefficient of x^N y^(k+l-N) in (x+y)^k (x-y)^l
CM(k, l, N) == LET T(t) == IF N - t > l \/ N - t < 0 THEN 0 ELSE BinT[k][t] * BinT[l][N - t] * Sg(l - N + t)
               IN SumF(T, 0, Min(k, N))
CONSTANT MaxQ        \* circular quanta of one kind per orbital
RelMax == 2 * MaxQ
CMT == TLCEval([k \in 0..MaxQ |-> [l \in 0..MaxQ |-> [N \in 0..RelMax |-> IF N > k + l THEN 0 ELSE CM(k, l, N)]]])
DfT == TLCEval([i \in 1..2 |-> [x \in 0..(4 * MaxQ) |-> Dfact(x, Primes[i])]])
P2T == TLCEval([i \in 1..2 |-> [x \in 0..(8 * MaxQ) |-> Pow2(x, Primes[i])]])
FMT == TLCEval([i \in 1..2 |-> [x \in 0..(4 * MaxQ) |-> FactM(x, Primes[i])]])

\* relative motion: (r'|1/rho|r) / sqrt(pi) * 2^T for unnormalised circular states with equal angular momentum
Rel(rp, rm, sp, sm, T, q) ==
  LET P == Primes[q]
      n == Min(rp, rm)  n2 == Min(sp, sm)  k == Abs(rp - rm)
      A(j) == M(LagM(n, k, j, P) * Sg(n + n2), P)
      H(j, i) == LET e == k + j + i IN M(M(A(j) * LagM(n2, k, i, P), P) * M(DfT[q][e] * P2T[q][T - e], P), P)
      Row(j) == LET G(i) == H(j, i) IN SumM(G, 0, n2, P)
  IN SumM(Row, 0, n, P)

RelT == TLCEval([i \in 1..2 |-> [rp \in 0..RelMax |-> [rm \in 0..RelMax |-> [sp \in 0..RelMax |->
               LET sm == sp - (rp - rm) IN
               IF sm < 0 \/ sm > RelMax THEN 0 ELSE Rel(rp, rm, sp, sm, RelMax * 2, i)]]]])

\* total number of half quanta: the power of four in the unit of an element
TT(a, b, c, d) == (Quanta(a) + Quanta(b) + Quanta(c) + Quanta(d)) \div 2
\* the unit exponent used: 2^(T + 2 RelMax)
\* C13:  u(abcd) = sqrt(pi/2) * CoulI(abcd) / (2^(T + 2 RelMax) * prod sqrt(np! nm!)),  at mass*omega = 1
CoulI(a, b, c, d, i) ==
  LET P == Primes[i]
      sg == Sg(a[1] + b[1] + c[1] + d[1])
      dp == NP(c) + NP(d) - NP(a) - NP(b)       \* the centre of mass does not change
      dm == NM(c) + NM(d) - NM(a) - NM(b)
      BP == NP(a) + NP(b)  BM == NM(a) + NM(b)
      In(Np, Nm) ==
        LET rp == BP - Np  rm == BM - Nm  sp == NP(c) + NP(d) - Np  sm == NM(c) + NM(d) - Nm IN
        IF sp < 0 \/ sm < 0 THEN 0
        ELSE LET k1 == M(M(CMT[NP(a)][NP(b)][Np], P) * M(CMT[NM(a)][NM(b)][Nm], P), P)
                 k2 == M(M(CMT[NP(c)][NP(d)][Np], P) * M(CMT[NM(c)][NM(d)][Nm], P), P)
                 f == M(FMT[i][Np] * FMT[i][Nm], P)
             IN IF k1 = 0 \/ k2 = 0 THEN 0 ELSE M(M(k1 * k2, P) * M(f * RelT[i][rp][rm][sp], P), P)
      Row(Np) == LET H(Nm) == In(Np, Nm) IN SumM(H, 0, BM, P)
  IN IF a[2] + b[2] # c[2] + d[2] THEN 0 ELSE M(sg * SumM(Row, 0, BP, P), P)
\* the same in the smallest unit  sqrt(pi/2) / (4^T prod sqrt(np! nm!)) in which every element is an integer,
\* given modulo the two primes: w[i] 2^(2 RelMax - T) must be congruent to CoulI
CoulOK(w, a, b, c, d) == LET T == TT(a, b, c, d) IN
  IF a[2] + b[2] # c[2] + d[2] THEN w[1] = 0 /\ w[2] = 0
  ELSE \A i \in 1..2 : LET P == Primes[i] IN w[i] >= 0 /\ w[i] < P /\ M(w[i] * P2T[i][2 * RelMax - T], P) = CoulI(a, b, c, d, i)

-----------------------------------------------------------------------------
(* C15: position.  x = (a+ + a+^ + a- + a-^)/2,  y = (a+ - a+^ - a- + a-^)/(2i)  in units 1/sqrt(mass*omega) *)
(* (a+ lowers m by one).  Returned: <<sign, square of twice the element>>; y carries the factor given by DipY. *)
DipX(a, b) ==
  LET dp == NP(a) - NP(b)  dm == NM(a) - NM(b)  s == Sg(a[1] + b[1]) IN
  IF Abs(dp) = 1 /\ dm = 0 THEN <<s, Max(NP(a), NP(b))>>
  ELSE IF Abs(dm) = 1 /\ dp = 0 THEN <<s, Max(NM(a), NM(b))>>
  ELSE <<0, 0>>
\* y(a,b) = -i (m_a - m_b) x(a,b): the sign of its imaginary part
DipY(a, b) == LET x == DipX(a, b) IN <<x[1] * (b[2] - a[2]), x[2]>>

\* functions: radial part for a r = rho (fixed point), without the angular factor, times 1/sqrt(mass*omega)
RECURSIVE LagV(_, _, _, _)
LagV(n, k, t, j) == IF j > n THEN 0 ELSE FMul(FRat(Sg(j) * BinT[n + k][n - j], Fact(j)), FPow(t, j)) + LagV(n, k, t, j + 1)
Radial(o, rho) ==
  LET n == o[1]  k == Abs(o[2])  t == FSq(rho)
      norm == FSqrt(FRat(Fact(n) , Fact(n + k)))
  IN FMul(FMul(FMul(norm, 564190), FMul(FPow(rho, k), LagV(n, k, t, 0))), FExpNeg(t \div 2))

\* the same by recurrence over normalised functions, for higher quantum numbers (rho <= 5/2)
RECURSIVE Rad0(_, _)
Rad0(k, rho) == IF k = 0 THEN FExpNeg(FSq(rho) \div 2) ELSE FMul(Rad0(k - 1, rho), FDiv(rho, FSqrt(k * One)))
RECURSIVE RadN(_, _, _, _, _, _)
RadN(n, k, t, j, cur, prev) == IF j = n THEN cur ELSE
   LET nxt == FDiv(FMul((2 * j + 1 + k) * One - t, cur) - FMul(FSqrt(j * (j + k) * One), prev), FSqrt((j + 1) * (j + 1 + k) * One))
   IN RadN(n, k, t, j + 1, nxt, cur)
RadialR(o, rho) == FMul(564190, RadN(o[1], Abs(o[2]), FSq(rho), 0, Rad0(Abs(o[2]), rho), 0))

-----------------------------------------------------------------------------
(* C23: |x| and |y| between orbitals, unit 1/sqrt(mass*omega): AbsI/(sqrt(pi) prod sqrt(n!(n+|m|)!) 2^(S-1) (1-dm^2)) *)
AbsS(a, b) == 1 + (Abs(a[2]) + Abs(b[2])) \div 2 + a[1] + b[1]
AbsI(a, b) ==
  LET k == Abs(a[2])  k2 == Abs(b[2])  S == AbsS(a, b)  P == 1000000007
      D(s) == Dfact(s, P)
      Row(j) == LET H(i) == Lag(a[1], k, j) * Lag(b[1], k2, i) * D(1 + (k + k2) \div 2 + j + i) * Pow2(S - 1 - (k + k2) \div 2 - j - i, P)
                IN SumF(H, 0, b[1])
  IN SumF(Row, 0, a[1])
AbsX(a, b, axis) ==
  LET dm == a[2] - b[2]
      sg == IF axis = 0 THEN Sg(Abs(dm) \div 2) ELSE 1
      den == FSqrt(FRat(Fact(a[1]) * Fact(a[1] + Abs(a[2])), 1))
      den2 == FSqrt(FRat(Fact(b[1]) * Fact(b[1] + Abs(b[2])), 1))
  IN IF dm % 2 # 0 THEN 0
     ELSE FDiv(FDiv(FMul(564190, FRat(sg * AbsI(a, b), Pow2(AbsS(a, b) - 1, 1000000007) * (1 - dm * dm))), den), den2)

-----------------------------------------------------------------------------
(* C16: energies in a magnetic field, E = W (2n+|m|+1) - w m, with W^2 = w0^2 + w^2, w = omega_c/2 *)
EB(o, W, w) == W * Shell(o) - w * o[2]
Before(o, q, W, w) == \/ EB(o, W, w) < EB(q, W, w)
                      \/ EB(o, W, w) = EB(q, W, w) /\ o[2] < q[2]
                      \/ EB(o, W, w) = EB(q, W, w) /\ o[2] = q[2] /\ o[1] < q[1]
=============================================================================
