------------------------------- MODULE Gauss -------------------------------
(* Exact tensors over the Gaussian integers Z[i].                           *)
(* A tensor is a record [sh, re, im]: its shape (sequence of axis lengths)  *)
(* and its entries in row-major order as two flat integer sequences.        *)
(* An absent quantity (Python's None) is NoT, the tensor with empty shape.  *)
EXTENDS Integers, Sequences, TLC

NoT == [sh |-> <<>>, re |-> <<>>, im |-> <<>>]
Present(T) == T.sh # <<>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* A tensor is well formed when it has as many entries as its shape says.
Shaped(T) == /\ Len(T.re) = (IF T.sh = <<>> THEN 0 ELSE Prod(T.sh))
             /\ Len(T.im) = Len(T.re)

\* Build a tensor from its shape and a map flat index -> <<re, im>>.
Build(sh, F(_)) ==
  LET N == Prod(sh)
      e == TLCEval([k \in 1..N |-> F(k)])
  IN TLCEval([sh |-> sh, re |-> [k \in 1..N |-> e[k][1]], im |-> [k \in 1..N |-> e[k][2]]])

\* Gather: entry k of the result is entry Src(k) of T, or zero when Src(k)=0.
Gather(sh, T, Src(_)) ==
  LET N == Prod(sh)
      s == TLCEval([k \in 1..N |-> Src(k)])
  IN TLCEval([sh |-> sh,
              re |-> [k \in 1..N |-> IF s[k] = 0 THEN 0 ELSE T.re[s[k]]],
              im |-> [k \in 1..N |-> IF s[k] = 0 THEN 0 ELSE T.im[s[k]]]])

TAdd(A, B) == TLCEval([sh |-> A.sh, re |-> [k \in 1..Len(A.re) |-> A.re[k] + B.re[k]],
                                    im |-> [k \in 1..Len(A.re) |-> A.im[k] + B.im[k]]])
TSub(A, B) == TLCEval([sh |-> A.sh, re |-> [k \in 1..Len(A.re) |-> A.re[k] - B.re[k]],
                                    im |-> [k \in 1..Len(A.re) |-> A.im[k] - B.im[k]]])
\* multiplication by the Gaussian integer z = <<a, b>>
TScale(z, A) == TLCEval([sh |-> A.sh,
     re |-> [k \in 1..Len(A.re) |-> z[1] * A.re[k] - z[2] * A.im[k]],
     im |-> [k \in 1..Len(A.re) |-> z[1] * A.im[k] + z[2] * A.re[k]]])
TInt(n, A) == TScale(<<n, 0>>, A)
TConj(A) == TLCEval([A EXCEPT !.im = [k \in 1..Len(A.im) |-> -A.im[k]]])
TZero(sh) == Build(sh, LAMBDA k : <<0, 0>>)

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x)   == <<x[1], -x[2]>>

\* matrices: 0-based access, transpose, adjoint
At(A, p, q) == LET k == p * A.sh[2] + q + 1 IN <<A.re[k], A.im[k]>>
Tr(A) == LET P == A.sh[1]  Q == A.sh[2] IN
         Gather(<<Q, P>>, A, LAMBDA k : ((k - 1) % P) * Q + ((k - 1) \div P) + 1)
Adj(A) == TConj(Tr(A))
Id(n) == Build(<<n, n>>, LAMBDA k : IF (k - 1) \div n = (k - 1) % n THEN <<1, 0>> ELSE <<0, 0>>)

\* row p of M (P x A) against column r of T seen as an A x R matrix
RECURSIVE DotRe(_, _, _, _, _, _, _)
DotRe(M, mo, T, r, R, a, acc) == IF a = 0 THEN acc ELSE
  DotRe(M, mo, T, r, R, a - 1, acc + M.re[mo + a] * T.re[(a - 1) * R + r]
                                   - M.im[mo + a] * T.im[(a - 1) * R + r])
RECURSIVE DotIm(_, _, _, _, _, _, _)
DotIm(M, mo, T, r, R, a, acc) == IF a = 0 THEN acc ELSE
  DotIm(M, mo, T, r, R, a - 1, acc + M.re[mo + a] * T.im[(a - 1) * R + r]
                                   + M.im[mo + a] * T.re[(a - 1) * R + r])

\* Contract M's second index with T's first and put M's first index first.
LMul(M, T) ==
  LET P == M.sh[1]  A == M.sh[2]  R == Prod(Tail(T.sh))
      pp == [k \in 1..P * R |-> ((k - 1) \div R) * A]
      rr == [k \in 1..P * R |-> ((k - 1) % R) + 1]
  IN TLCEval([sh |-> <<P>> \o Tail(T.sh),
        re |-> [k \in 1..P * R |-> DotRe(M, pp[k], T, rr[k], R, A, 0)],
        im |-> [k \in 1..P * R |-> DotIm(M, pp[k], T, rr[k], R, A, 0)]])

\* The same, but M's first index becomes the LAST index of the result.
RMul(M, T) ==
  LET P == M.sh[1]  A == M.sh[2]  R == Prod(Tail(T.sh))
      pp == [k \in 1..P * R |-> ((k - 1) % P) * A]
      rr == [k \in 1..P * R |-> ((k - 1) \div P) + 1]
  IN TLCEval([sh |-> Tail(T.sh) \o <<P>>,
        re |-> [k \in 1..P * R |-> DotRe(M, pp[k], T, rr[k], R, A, 0)],
        im |-> [k \in 1..P * R |-> DotIm(M, pp[k], T, rr[k], R, A, 0)]])

MatMul(A, B) == LMul(A, B)

\* C~ X C and the four-index transformation (bra indices 1,2; ket indices 3,4)
Xf1(X, C, Ct) == LET CT == Tr(C) IN RMul(CT, RMul(Ct, X))
Xf2(U, C, Ct) == LET CT == Tr(C) IN RMul(CT, RMul(CT, RMul(Ct, RMul(Ct, U))))

\* rank-4 index helpers, all axes of length n, 0-based components
I4(n, p, q, r, s) == ((p * n + q) * n + r) * n + s + 1
D4(n, k) == <<(k - 1) \div (n * n * n), ((k - 1) \div (n * n)) % n,
              ((k - 1) \div n) % n, (k - 1) % n>>
At4(U, p, q, r, s) == LET k == I4(U.sh[1], p, q, r, s) IN <<U.re[k], U.im[k]>>
Perm4(U, F(_)) == LET n == U.sh[1] IN
   Gather(U.sh, U, LAMBDA k : LET d == F(D4(n, k)) IN I4(n, d[1], d[2], d[3], d[4]))
SwapKet(U)  == Perm4(U, LAMBDA d : <<d[1], d[2], d[4], d[3]>>)
SwapBra(U)  == Perm4(U, LAMBDA d : <<d[2], d[1], d[3], d[4]>>)
SwapBoth(U) == Perm4(U, LAMBDA d : <<d[2], d[1], d[4], d[3]>>)
AntiSym(U)  == TSub(U, SwapKet(U))

\* spin doubling: function p becomes 2p (up) and 2p+1 (down)
Dbl1(X) == LET n == X.sh[1] IN
   Gather(<<2 * n, 2 * n>>, X, LAMBDA k :
      LET p == (k - 1) \div (2 * n)  q == (k - 1) % (2 * n)
      IN IF p % 2 = q % 2 THEN (p \div 2) * n + (q \div 2) + 1 ELSE 0)
Dbl2(U) == LET n == U.sh[1] IN
   Gather(<<2 * n, 2 * n, 2 * n, 2 * n>>, U, LAMBDA k :
      LET d == D4(2 * n, k)
      IN IF d[1] % 2 = d[3] % 2 /\ d[2] % 2 = d[4] % 2
         THEN I4(n, d[1] \div 2, d[2] \div 2, d[3] \div 2, d[4] \div 2) ELSE 0)
DblF(F) == LET R == Prod(Tail(F.sh)) IN
   Gather(<<2 * F.sh[1]>> \o Tail(F.sh), F, LAMBDA k :
      (((k - 1) \div R) \div 2) * R + ((k - 1) % R) + 1)

\* slices and reassembly of rank-3 tensors along the first axis (dipole components)
Comp(D, c) == LET R == Prod(Tail(D.sh)) IN
   Gather(Tail(D.sh), D, LAMBDA k : (c - 1) * R + k)
Stack(n, inner, F(_)) ==
   LET R == Prod(inner)
       f == TLCEval([c \in 1..n |-> F(c)])
   IN TLCEval([sh |-> <<n>> \o inner,
        re |-> [k \in 1..n * R |-> f[((k - 1) \div R) + 1].re[((k - 1) % R) + 1]],
        im |-> [k \in 1..n * R |-> f[((k - 1) \div R) + 1].im[((k - 1) % R) + 1]]])
MapComp(D, F(_)) == LET f1 == F(Comp(D, 1)) IN
   IF D.sh[1] = 1 THEN [f1 EXCEPT !.sh = <<1>> \o f1.sh]
   ELSE Stack(D.sh[1], f1.sh, LAMBDA c : F(Comp(D, c)))

\* outer product A[p,r] B[q,s] -> [p,q,r,s]
Outer2(A, B) == LET n == A.sh[1] IN
   Build(<<n, n, n, n>>, LAMBDA k : LET d == D4(n, k) IN CMul(At(A, d[1], d[3]), At(B, d[2], d[4])))

\* Kronecker product of an n x n matrix with a 2 x 2 matrix
Kron2(S, M) == LET n == S.sh[1] IN
   Build(<<2 * n, 2 * n>>, LAMBDA k :
      LET p == (k - 1) \div (2 * n)  q == (k - 1) % (2 * n)
      IN CMul(At(S, p \div 2, q \div 2), At(M, p % 2, q % 2)))

\* sums of Gaussian integers F(1) + ... + F(n)
RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(CSumTo(f, n - 1), f[n])
CSum(n, F(_)) == LET f == TLCEval([k \in 1..n |-> F(k)]) IN CSumTo(f, n)

IsHermitian(A) == A = Adj(A)
IsAnti(U) == LET z == TInt(-1, U) IN SwapKet(U) = z /\ SwapBra(U) = z
IsExch(U) == SwapBoth(U) = U
=============================================================================
