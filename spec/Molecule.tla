------------------------------ MODULE Molecule ------------------------------
(* Molecular systems from atomic-orbital integrals, fixed-point arithmetic.  *)
(* Matrices are flat sequences, row by row.                                  *)
EXTENDS Fix

A2(m, l, p, q) == m[(p - 1) * l + q]
A4(m, l, p, q, r, s) == m[(((p - 1) * l + q - 1) * l + r - 1) * l + s]
D(p, q) == IF p = q THEN 1 ELSE 0

\* C^T m C (real coefficients, column p of C is orbital p, sign g[p])
Half1(m, C, l) == TLCEval([x \in 1..(l * l) |-> LET a == ((x - 1) \div l) + 1  q == ((x - 1) % l) + 1
                                                   T(b) == FMul(A2(m, l, a, b), A2(C, l, b, q)) IN SumF(T, 1, l)])
Change2(m, C, l) == LET w == Half1(m, C, l) IN
   TLCEval([x \in 1..(l * l) |-> LET p == ((x - 1) \div l) + 1  q == ((x - 1) % l) + 1
                                     T(a) == FMul(A2(C, l, a, p), A2(w, l, a, q)) IN SumF(T, 1, l)])
\* all four indices, one at a time: each pass transforms the last index and moves it to the front
Pass(m, C, l) == TLCEval([x \in 1..(l * l * l * l) |->
   LET i == x - 1  n == i \div (l * l * l)  rest == i % (l * l * l)      \* new element [n, p, q, r] from old [p, q, r, .]
       T(b) == FMul(m[rest * l + b], A2(C, l, b, n + 1)) IN SumF(T, 1, l)])
Change4(m, C, l) == Pass(Pass(Pass(Pass(m, C, l), C, l), C, l), C, l)
\* physicists' order from charge-density order: u[pqrs] = (pr|qs)
Phys(e, l, p, q, r, s) == A4(e, l, p, r, q, s)

\* closed-shell reference energy and Fock matrix with n doubly occupied orbitals
RECURSIVE Sum2(_, _, _, _)
Sum2(F(_, _), i, j, n) == IF i > n THEN 0 ELSE IF j > n THEN Sum2(F, i + 1, 1, n) ELSE F(i, j) + Sum2(F, i, j + 1, n)
ERef(h, u, l, n) == LET H(i) == 2 * A2(h, l, i, i)  G(i, j) == 2 * A4(u, l, i, j, i, j) - A4(u, l, i, j, j, i) IN SumF(H, 1, n) + Sum2(G, 1, 1, n)
FockE(h, u, l, n, p, q) == LET G(i) == 2 * A4(u, l, p, i, q, i) - A4(u, l, p, i, i, q) IN A2(h, l, p, q) + SumF(G, 1, n)
=============================================================================
