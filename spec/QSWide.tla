------------------------------- MODULE QSWide -------------------------------
(* Basis sets too large for explicit four-index tensors.  Two-body operators *)
(* are sums of products                                                      *)
(*      u[p,q,r,s] = sum_k X_k[p,r] Y_k[q,s],                                *)
(* minus the same with r and s exchanged when anti-symmetrised: a form that  *)
(* every operation of QS preserves.  A wide basis is  [b, A, T]  where b is  *)
(* the record of QS without two-body parts, and A, T are the sequences of    *)
(* pairs <<X, Y>> of u and of the two-body part of S^2.  (The one exception: *)
(* spin doubling of elements that are anti-symmetrised already.)             *)
EXTENDS QS

\* what a wide basis stands for
RECURSIVE SumOuter(_)
SumOuter(P) == IF Len(P) = 1 THEN Outer2(P[1][1], P[1][2]) ELSE TAdd(SumOuter(Tail(P)), Outer2(P[1][1], P[1][2]))
Full(P, anti) == IF P = <<>> THEN NoT ELSE LET U == SumOuter(P) IN IF anti THEN AntiSym(U) ELSE U
Expand(w) == [w.b EXCEPT !.u = Full(w.A, w.b.anti), !.s2tb = Full(w.T, w.b.anti)]

\* products with a sparse matrix M (P x A) from the left: sums over its nonzero entries only
NzRow(M, p, A) == SelectSeq([a \in 1..A |-> a], LAMBDA a : M.re[p * A + a] # 0 \/ M.im[p * A + a] # 0)
RECURSIVE SDotRe(_, _, _, _, _, _, _), SDotIm(_, _, _, _, _, _, _)
SDotRe(z, n, M, mo, T, r, R) == IF n = 0 THEN 0 ELSE
   LET a == z[n] IN SDotRe(z, n - 1, M, mo, T, r, R) + M.re[mo + a] * T.re[(a - 1) * R + r] - M.im[mo + a] * T.im[(a - 1) * R + r]
SDotIm(z, n, M, mo, T, r, R) == IF n = 0 THEN 0 ELSE
   LET a == z[n] IN SDotIm(z, n - 1, M, mo, T, r, R) + M.re[mo + a] * T.im[(a - 1) * R + r] + M.im[mo + a] * T.re[(a - 1) * R + r]
SMul(M, T) ==
  LET P == M.sh[1]  A == M.sh[2]  R == Prod(Tail(T.sh))
      nz == TLCEval([p \in 1..P |-> NzRow(M, p - 1, A)])
  IN TLCEval([sh |-> <<P>> \o Tail(T.sh),
        re |-> [k \in 1..P * R |-> LET p == (k - 1) \div R IN SDotRe(nz[p + 1], Len(nz[p + 1]), M, p * A, T, ((k - 1) % R) + 1, R)],
        im |-> [k \in 1..P * R |-> LET p == (k - 1) \div R IN SDotIm(nz[p + 1], Len(nz[p + 1]), M, p * A, T, ((k - 1) % R) + 1, R)]])
SXf(X, C, Ct) == Tr(SMul(Tr(C), Tr(SMul(Ct, X))))

MapP(P, F(_)) == TLCEval([k \in 1..Len(P) |-> <<F(P[k][1]), F(P[k][2])>>])
WChange(w, C, Ct) ==
  LET X1(M) == SXf(M, C, Ct)  b == w.b IN
  [b |-> [b EXCEPT !.l = C.sh[2], !.h = X1(b.h), !.s = X1(b.s), !.dip = Opt(b.dip, LAMBDA M : MapComp(M, X1)),
            !.spf = Opt(b.spf, LAMBDA M : SMul(Tr(C), M)), !.bra = Opt(b.bra, LAMBDA M : SMul(Ct, M)),
            !.sx = Opt(b.sx, X1), !.sy = Opt(b.sy, X1), !.sz = Opt(b.sz, X1), !.s2 = Opt(b.s2, X1)],
   A |-> MapP(w.A, X1), T |-> MapP(w.T, X1)]
WAnti(w) == [w EXCEPT !.b.anti = TRUE]
WDouble(w, A, B, den, anti) ==
  IF w.b.spin THEN w ELSE
  LET b == w.b
      sx == Kron2(b.s, Pauli(A, B, SigX))  sy == Kron2(b.s, Pauli(A, B, SigY))  sz == Kron2(b.s, Pauli(A, B, SigZ))
      d == [b EXCEPT !.l = 2 * b.l, !.spin = TRUE, !.h = Dbl1(b.h), !.s = Dbl1(b.s),
             !.dip = Opt(b.dip, LAMBDA X : MapComp(X, Dbl1)), !.spf = Opt(b.spf, DblF), !.bra = Opt(b.bra, DblF),
             !.sx = sx, !.sy = sy, !.sz = sz, !.s2 = TInt(3, Dbl1(b.s)), !.anti = anti]
  IN [b |-> d, A |-> MapP(w.A, Dbl1), T |-> <<<<sx, sx>>, <<sy, sy>>, <<sz, sz>>>>]

\* elements and weighted sums of all elements, without building the tensor
RECURSIVE El(_, _, _, _, _, _)
El(P, n, p, q, r, s) == IF n = 0 THEN <<0, 0>> ELSE CAdd(El(P, n - 1, p, q, r, s), CMul(At(P[n][1], p, r), At(P[n][2], q, s)))
Elem(P, anti, p, q, r, s) == LET d == El(P, Len(P), p, q, r, s) IN IF anti THEN CSub(d, El(P, Len(P), p, q, s, r)) ELSE d
\* sum_pr x[p] M[p,r] y[r], for integer vectors
RECURSIVE RowSum(_, _, _, _, _)
RowSum(v, o, y, n, acc) == IF n = 0 THEN acc ELSE RowSum(v, o, y, n - 1, acc + v[o + n] * y[n])
BilP(v, x, y, m) == LET r == TLCEval([p \in 1..Len(x) |-> x[p] * RowSum(v, (p - 1) * m, y, m, 0)]) IN RowSum(r, 0, [p \in 1..Len(x) |-> 1], Len(x), 0)
Bil(M, x, y) == <<BilP(M.re, x, y, M.sh[2]), BilP(M.im, x, y, M.sh[2])>>
\* sum over all p,q,r,s of a[p] b[q] c[r] d[s] u[p,q,r,s]
RECURSIVE Wsum(_, _, _, _, _, _)
Wsum(P, n, a, b, c, d) == IF n = 0 THEN <<0, 0>> ELSE CAdd(Wsum(P, n - 1, a, b, c, d), CMul(Bil(P[n][1], a, c), Bil(P[n][2], b, d)))
WSum(P, anti, a, b, c, d) == LET x == Wsum(P, Len(P), a, b, c, d) IN IF anti THEN CSub(x, Wsum(P, Len(P), a, b, d, c)) ELSE x

\* energies and Fock matrices: u[p,i,q,i] and u[p,i,i,q] summed over occupied i
TrO(M, n) == Sum1(M, n)
MulO(X, Y, n) == \* sum_(i<n) X[p,i] Y[i,q]
   Build(X.sh, LAMBDA k : LET N == X.sh[2]  p == (k - 1) \div N  q == (k - 1) % N IN CSum(n, LAMBDA i : CMul(At(X, p, i - 1), At(Y, i - 1, q))))
RECURSIVE DirX(_, _, _), ExcX(_, _, _)
DirX(P, k, n) == LET t == TScale(TrO(P[k][2], n), P[k][1]) IN IF k = 1 THEN t ELSE TAdd(DirX(P, k - 1, n), t)
ExcX(P, k, n) == LET t == MulO(P[k][1], P[k][2], n) IN IF k = 1 THEN t ELSE TAdd(ExcX(P, k - 1, n), t)
Dir(P, anti, n) == LET D == DirX(P, Len(P), n) IN IF anti THEN TSub(D, ExcX(P, Len(P), n)) ELSE D
Exc(P, anti, n) == LET E == ExcX(P, Len(P), n) IN IF anti THEN TSub(E, DirX(P, Len(P), n)) ELSE E
WFock(kind, n, h, P, anti) ==
   IF kind = "gos" THEN TAdd(h, Dir(P, anti, n)) ELSE TAdd(h, TSub(TInt(2, Dir(P, anti, n)), Exc(P, anti, n)))
WEnergy2(kind, n, w) ==
   LET D == Sum1(Dir(w.A, w.b.anti, n), n)  X == Sum1(Exc(w.A, w.b.anti, n), n)  H == Sum1(w.b.h, n) IN
   IF kind = "gos" THEN CAdd(CInt(2, H), D) ELSE CInt(2, CAdd(CInt(2, H), CSub(CInt(2, D), X)))
=============================================================================
